"""C09 at run time: random expansions, re-indented directly and by programs of nested
applications, against the statement itself.  The spacing of blank lines is not compared."""
from yu import *

IND = ['', '', ' ', '  ', '    ', '\t', '\t\t', ' \t', '\t  ']
WORDS = ['a', chr(0x85), chr(0xa0), chr(12), 'b c', '};', 'x\x85y', 'e  ', '"s"', '/* c */', 'k = 1;', 'd\xa0', '0']


def lead(l):
    return l[:len(l) - len(l.lstrip(' \t'))]


def common(ls):
    c = None
    for l in ls:
        if l.strip(' \t'):
            d = lead(l)
            if c is None:
                c = d
            while not d.startswith(c):
                c = c[:-1]
    return c or ''


def want(text, indent):
    """The expansion re-indented: the list of its lines, blank ones empty."""
    ls = text.split('\n')
    n = len(common(ls))
    return [(indent if i else '') + l[n:] if l.strip(' \t') else '' for i, l in enumerate(ls)]


def norm(t):
    return [l if l.strip(' \t') else '' for l in t.split('\n')]


def text(rng, word=None):
    long = rng.random() < .02
    base = rng.choice(IND) * (rng.randrange(40) if long else 1)
    ls = []
    for _ in range(rng.randrange(1, 120 if long else 8)):
        if rng.random() < .2:
            ls.append(rng.choice(IND))
        else:
            ls.append((base + rng.choice(IND) if rng.random() < .8 else rng.choice(IND)) + rng.choice(word or WORDS))
    return '\n'.join(ls) + rng.choice(['', '\n', '\n', '\n  ', '\n\t', '\n\n'])


def direct(r):
    rng = r.rng
    t, ind = text(rng), rng.choice(IND)
    on = rng.random() < .85
    config.pp_trim_app_indent = on
    r.case((t, ind, on))
    case = dict(text=t, indent=ind, option=on)
    got = []
    for br in (0, 1):
        try:
            x = TRIM(None, rng.choice([ind, ind or None]))
            v = x.trim_with_browse(RESULT(t, [], rng.choice([[], [(0, 3)]]))) if br else x.trim(t)
            got.append(str(v))
        except Exception as e:
            return r.check(False, 'error', 'no error', error=repr(e)[:200], browse=br, **case)
        w = want(t, ind) if on else t.split('\n')
        g = norm(got[-1]) if on else got[-1].split('\n')
        r.check(g == w, 'trim' if on else 'off', 'the lines re-indented' if on else 'the expansion is unchanged', browse=br, expected=w, result=g, **case)
    c = rng.randrange(3)
    s = t if c else rng.choice([' ', '\t', '  \t'])
    p = PLAIN(s, [rng.choice(['', '\t', '  ']), False][rng.randrange(2)] if c else None)
    q = p.add_indent(ind)
    w = s.split('\n')
    w = [w[0]] + [ind + l for l in w[1:]]
    r.check(isinstance(q, PLAIN) and norm(str(q)) == norm('\n'.join(w)), 'macro', 'the lines of a macro are indented', text=s, indent=ind, result=str(q))
    if isinstance(p.indent, str) and q is not p:
        r.check(q.indent == ind + p.indent, 'macro indent', 'the indentation at the end', text=s, indent=ind, before=p.indent, result=q.indent)
    r.check(q.trim == p.trim, 'macro trim', 'spacing to delete stays so', text=s)


def expansion(rng, on, d, defs):
    """-> ( source text, its expansion )"""
    src = out = ''
    last = '?'                  # what stands before the application, on its line
    for _ in range(rng.randrange(1, 5)):
        if d and rng.random() < .5:
            k = 'f%d' % len(defs)
            defs.append(None)
            s, e = expansion(rng, on, d - 1, defs)
            form = rng.choice(['($set %s \\x.[%s])', '($set %s \\x.[%s])', '($macro %s (x)%s)'])
            defs[int(k[1:])] = form % (k, s)
            line = out.split('\n')[-1] if '\n' in out else '?'
            srcline = src.split('\n')[-1] if '\n' in src else '?'
            ind = srcline if not srcline.strip(' \t') else ''
            src += '($%s 1)' % k
            out += '\n'.join(want(e, ind)) if on else e
        t = text(rng, ['a', 'b c', '};', 'x\x85y', 'k = 1;', '0'])
        src += ';' + t + '\n' + rng.choice(IND)
        out += ';' + t + '\n' + src.split('\n')[-1]
    return src, out


def setting(r):
    """A macro that sets a name: its lines keep their indentation after that of the application."""
    rng = r.rng
    on = rng.random() < .6
    browse = rng.random() < .5
    ws = ['a', 'b c', '};', 'k = 1;', '0']
    t1 = '\n'.join([rng.choice(IND) + rng.choice(ws) for _ in range(rng.randrange(1, 5))])
    t2 = '\n'.join([rng.choice(IND) + rng.choice(ws) for _ in range(rng.randrange(1, 5))]) + rng.choice(['', '\n'])
    ind = rng.choice(IND)
    t = '($macro m (x)\n%s\n($set k 1)%s)@\n%s($m 1)\nz' % (t1, t2, ind)
    r.case((t, on, browse))
    limit(20)
    try:
        got = str(translate(t, pp_trim_app_indent=on, pp_browse=browse, pp_reduce_emptiness=False))
    except Exception as x:
        got = repr(x)[:300]
    finally:
        unlimit()
    got = got[got.find('@') + 1:]
    w = ''.join(l + '\n' for l in ('\n' + ind + '\n' + t1 + '\n' + t2 + '\nz').split('\n'))
    add = ind if on else ''
    a = [l for l in got.split('\n') if l.strip(' \t')]
    x1, x2 = t1.split('\n'), t2.split('\n')
    b = [add + l for l in x1]
    b += [add + l for l in x2] + ['z']
    b = [l for l in b if l.strip(' \t')]
    if on:
        # the spacing after ($set) is deleted
        a, b = a[:len(x1)] + [l.strip() for l in a[len(x1):]], b[:len(x1)] + [l.strip() for l in b[len(x1):]]
    r.check(a == b, 'set macro' if on else 'set macro off', 'the lines of a macro', text=t, browse=browse, expected=b, result=a)


def program(r):
    rng = r.rng
    on = rng.random() < .8
    browse = rng.random() < .5
    defs = []
    s, e = expansion(rng, on, 2, defs)
    t = ''.join(d + '\n' for d in reversed(defs)) + '@' + s
    r.case((t, on, browse))
    limit(20)
    try:
        got = str(translate(t, pp_trim_app_indent=on, pp_browse=browse, pp_reduce_emptiness=False))
    except Exception as x:
        got = repr(x)[:300]
    finally:
        unlimit()
    got = got[got.find('@') + 1:]
    a, b = (norm(got), norm(e)) if on else (got.split('\n'), e.split('\n'))
    r.check(a == b, 'program' if on else 'program off', 'the expansions re-indented' if on else 'the expansions unchanged', text=t, browse=browse, expected=b, result=a)


def body(r):
    r.rule = 'random expansions and indentations, programs of nested applications; distinct by text and options'
    while r.left() > 0:
        r.rng.choice([direct, direct, program, program, setting])(r)


main(body)
