"""C18 at run time: real files with chosen times of modification."""
from pkg import *
import io
import shutil
import itertools

NAMES = ['m.py', 'm.yu', 'm.c', 'm.yu-py', 'm.PY', 'x.py.yu']
HEADS = ['', '# coding: yupp\n', '#!/usr/bin/python\n# coding: yupp\n', '# -*- coding: yupp.cp1251 -*-\n', '#!/bin/sh\n# vim: coding=yupp.utf-8\n',
         '\n# coding=yupp\n', '# plain comment\n', '# a\n# b\n', '# a\n# b\n# coding: yupp\n', ' \t# coding: yupp\n', 'x = "coding: yupp"\n',
         '# a\ny = "coding: yupp"\n', '#coding:yupp', '\n\n# coding: yupp\n', 'x = 1\n# coding: yupp\n']
BODY = 'a = ($add 1 2)\n'
T0 = 1_600_000_000


def out_name(fn):
    yup.shell.output_dir = ''
    return yup._output_fn(fn)


def write(fn, text, t=None):
    with open(fn, 'w', encoding='utf8') as f:
        f.write(text)
    if t is not None:
        os.utime(fn, (t, t))


def proc(r, text, fn):
    try:
        return yup.proc_stream(io.StringIO(text), fn)
    except Exception as e:
        r.fail('raise:' + type(e).__name__, 'preprocessing on import raises', fn=fn, text=text, error=repr(e))
        return None


def fresh_dir():
    d = os.path.abspath('r')
    if os.path.isdir(d):
        for x in os.listdir(d):
            os.chmod(os.path.join(d, x), 0o700)
        shutil.rmtree(d)
    os.mkdir(d)
    return d


def reuse(r, name, ds, dout, deps, force, saved, prev, unit=1):
    """ds, dout: times of the source and of the output; deps: times of the dependencies (None: missing)"""
    r.case((name, ds, dout, tuple(deps), force, saved, prev, unit))
    d = fresh_dir()
    fn = os.path.join(d, name)
    out = out_name(fn)
    write(fn, BODY, T0 + ds * unit)
    if dout is not None:
        write(out, saved, T0 + dout * unit)
    names = []
    for i, t in enumerate(deps):
        p = os.path.join(d, 'dep%d' % i) if t != 'blank' else ''
        names.append(p)
        if t not in (None, 'blank'):
            write(p, 'x', T0 + t * unit)
    cfg = ''
    if names or r.rng.random() < .5:
        cfg += 'dependency = %r\n' % (names,)
    if force is not None:
        cfg += 'force = %r\n' % (force,)
    if cfg:
        write(os.path.splitext(fn)[0] + '.yuconfig', cfg)
    yup.shell.output_dir = os.path.join(d, 'elsewhere') if prev else ''
    if prev:
        os.mkdir(os.path.join(d, 'elsewhere'))
        write(os.path.join(d, 'elsewhere', os.path.basename(out)), 'ELSEWHERE', T0 + 100000)
    yugen.config.passage = 0
    got = proc(r, BODY, fn)
    if got is None:
        return
    ok, data, fn_o, shrink = got
    want = not force and dout is not None and dout > ds and all(t not in (None, 'blank') and t < dout for t in deps)
    info = dict(name=name, length=len(saved), source=ds, output=dout, dependencies=deps, seconds=unit, force=force, result=got)
    r.check(fn_o == out, 'name', 'the output of an earlier run names this one', expected=out, **info)
    reused = data == saved if saved != BODY else None
    r.check(reused == want, 'stale' if reused else 'needless', 'an output that is not up to date is reused' if reused else 'an output that is up to date is not reused', **info)
    if not want:
        r.check(ok and str(data).strip() == 'a = 3', 'result', 'the source is not preprocessed', **info)


def spoiled(r, name, raw, where):
    """The output is newer than everything, but cannot be read as text (a crash while writing, a foreign editor)."""
    r.case((name, raw, where))
    d = fresh_dir()
    fn = os.path.join(d, name)
    out = out_name(fn)
    write(fn, BODY, T0)
    with open(out, 'wb') as f:
        f.write(b'b = 1\n' * where + raw + b'\nc = 2\n')
    os.utime(out, (T0 + 10, T0 + 10))
    got = proc(r, BODY, fn)
    if got is not None:
        r.check(got[0] and str(got[1]).strip() == 'a = 3', 'spoiled', 'an output that cannot be read is not made again', name=name, bytes=raw, lines_before=where, result=got)


def heads(r, head, name, tail=BODY):
    r.case((head, name, tail))
    d = fresh_dir()
    fn = os.path.join(d, name)
    text = head + tail
    write(fn, text, T0)
    out = out_name(fn)
    a = proc(r, text, fn)
    if a is None or not os.path.isfile(out):
        return
    # a file with another header comes between, sometimes
    other = r.rng.choice([None, '# coding: utf-8\n', '#!python\n# coding: yupp\n', '# coding: yupp\n'])
    if other is not None:
        of = os.path.join(d, r.rng.choice(['other.py', 'other.c']))
        write(of, other + tail, T0)
        if proc(r, other + tail, of) is None:
            return
    b = proc(r, text, fn)
    if b is None:
        return
    info = dict(name=name, text=text, between=other, new=a, reused=b)
    with open(out, encoding='utf8') as f:
        saved = f.read()
    r.check(b[1] == saved and b[0], 'reused', 'a fresh output is not reused as it was saved', **info)
    r.check(a[3] == b[3], 'shrink', 'the number of removed header lines depends on the reuse of the output', **info)
    m = re.match(r'(?:(#[^\n]*\n)|(\n))?[ \t]*#[^\n]*coding[:=][ \t]*yupp(?:\.[-\w]+)?(?:\W|$)', text)
    if name in ('m.py', 'm.yu-py', 'm.PY'):
        want = 0
        lines = text.split('\n')
        for i in (0, 1):
            if i < len(lines) and re.search(r'coding[:=][ \t]*yupp(\.[-\w]+)?(\W|$)', lines[i], re.I) and lines[i].lstrip(' \t').startswith('#'):
                want = i + 1
                break
            if i < len(lines) and not (lines[i].lstrip(' \t').startswith('#') or i == 0 and not lines[i].strip(' \t')):
                break
        r.check(a[3] == want, 'header', 'the number of removed header lines', expected=want, **info)
    r.check(a[0] and '3' in a[1], 'result', 'the source is not preprocessed', **info)


def body(r):
    global re
    import re
    r.rule = '(name, times of source, output and dependencies, force) and (header, name)'
    write('probe', 'x', T0 + .0625)
    fine = .0625 if os.path.getmtime('probe') == T0 + .0625 else 1
    for name in NAMES:
        for h in HEADS:
            heads(r, h, name)
    heads(r, '# coding: yupp\n', 'm.py', 's = "\u00e9\u0436" # ($add 1 2)\n')
    for ds, dout in itertools.product((0, 5, 10), (None, 0, 5, 10)):
        for deps in [(), (0,), (5,), (10,), (0, 5), (10, 0), (0, 10), (None,), (0, None), (None, 0), ('blank',), (0, 'blank'), (5, 5, 5), (0, 0, 11)]:
            for force in (None, False, True):
                if force is None or len(deps) < 2:
                    reuse(r, 'm.py', ds, dout, deps, force, 'SAVED\n', False)
                if force is None and len(deps) < 3:
                    reuse(r, 'm.py', ds, dout, deps, force, 'SAVED\n', False, fine)
    reuse(r, 'm.py', 0, 10, (), None, '# saved\n' * 500000, False)
    reuse(r, 'm.py', 0, 10, (5,), None, 'x' * 200000 + '\n', False)
    for raw in (b'\xff', b'\xc3', b'caf\xe9', b'\x80', b'\xf0\x9f\x98', b'\xed\xa0\x80'):
        for where in (0, 1, 3000):
            spoiled(r, r.rng.choice(NAMES), raw, where)
    while r.left() > 0:
        if r.rng.random() < .3:
            h = ''.join(r.rng.choice(['#', ' ', '\n', 'coding', ':', '=', ' ', 'yupp', '.utf-8', 'x', '\t', '!']) for _ in range(r.rng.randint(1, 14)))
            if '($' in h:
                continue
            heads(r, h + '\n', r.rng.choice(NAMES))
        else:
            reuse(r, r.rng.choice(NAMES), r.rng.randrange(8), r.rng.choice([None] + list(range(12))),
                  tuple(r.rng.choice([None, 'blank'] + list(range(12)) * 2) for _ in range(r.rng.randrange(4))), r.rng.choice([None, False, True]),
                  r.rng.choice(['SAVED\n', 'caf\u00e9 \u0436\n', '']), r.rng.random() < .3, r.rng.choice([1, fine, 86400]))


main(body)
