#!/usr/bin/env python3-vt
"""DESIGN.md from design/head.md, the contracts, levels.json, the oracles, properties.jsonl and design/tail.md."""
import ast, importlib, json, os, re, sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, ROOT)
read = lambda *p: open(os.path.join(ROOT, *p)).read()
doc = lambda f: ' '.join((ast.get_docstring(ast.parse(read(f))) or '').split())
props = [json.loads(l) for l in read('properties.jsonl').splitlines()]
lev = json.loads(read('tools/levels.json'))
bounded = json.loads(read('tools/design/bounded.json'))
strip = lambda s: re.sub(r'^C\d\d( at run time)?: *', '', s)
cap = lambda s: s[:1].upper() + s[1:]
out = [read('tools/design/head.md')]
for p in props:
    i = p['id']
    M = importlib.import_module('contracts.' + i)
    out.append('### %s  %s\n' % (i, p['title']))
    out.append(p['statement'] + '\n')
    out.append('*Specified and proved.* %s %s\n' % (cap(strip(doc('contracts/%s.py' % i))), lev[i]['note']))
    out.append('*Units:* ' + ', '.join('`%s`' % u[0] for u in M.UNITS) + '.\n')
    rule = re.search(r"r\.rule = '([^']*)'", read('rt/%s.py' % i))
    out.append('*Oracle, run on the real code (`rt/%s.py`).* %s Inputs: %s.\n' % (i, cap(strip(doc('rt/%s.py' % i))), rule.group(1) if rule else 'see the file'))
    out.append('*Beyond the tests.* ' + p['why_tests_cant'] + '\n')
    t = list(getattr(M, 'TRUSTED', None) or [])
    a = list(getattr(M, 'ASSUMPTIONS', None) or [])
    if t: out.append('*Trusted:* ' + '; '.join(t) + '.\n')
    if a: out.append('*Assumed:* ' + '; '.join(a) + '.\n')
    if i in bounded: out.append('*Bounded, not proved:* ' + bounded[i] + '\n')
caught = json.loads(read('tools/design/caught.json'))
rows = ['| bug | property | what it breaks | caught by |', '|---|---|---|---|']
for d in sorted(os.listdir(os.path.join(ROOT, 'seeded'))) if os.path.isdir(os.path.join(ROOT, 'seeded')) else []:
    m = json.loads(read('seeded', d, 'meta.json'))
    rows.append('| %s | %s | %s | %s |' % (d, m['property'], m['what_it_breaks'], caught.get(d, 'not recorded')))
out.append(read('tools/design/tail.md').replace('SEEDED\n', '\n'.join(rows) + '\n'))
open(os.path.join(ROOT, 'DESIGN.md'), 'w').write('\n'.join(out))
