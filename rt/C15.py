"""C15 at run time: _output_fn against the documented mapping."""
from yu import *
import os
import posixpath


def spec(fn, out):
    d, b = fn.rpartition('/')[0] + fn.rpartition('/')[1], fn.rpartition('/')[2]
    r, e = posixpath.splitext(b)
    low = e.lower()
    if not e:
        w = b + '.yugen'
    elif low == '.yu':
        w = r if posixpath.splitext(r)[1] else r + '.yugen'
    elif low.startswith('.yu-') and len(e) > 4:
        w = r + '.' + e[4:]
    else:
        w = r + '.yugen' + e
    return os.path.join(out, w) if out else d + w


def one(r, fn, out):
    r.case((fn, out))
    yup.shell.output_dir = out
    try:
        got = yup._output_fn(fn)
    except Exception as e:
        r.fail('raise', 'the output name cannot be derived', name=fn, output_dir=out, error=repr(e))
        return
    want = spec(fn, out)
    r.check(got == want, 'name', 'the output name is not the documented one', name=fn, output_dir=out, got=got, expected=want)
    r.check(os.path.basename(got) != os.path.basename(fn), 'same', 'the output has the name of the input', name=fn, output_dir=out, got=got)


def through_cli(r, name, use_out):
    """The whole run: the output is where it should be and the input is untouched."""
    d = 'cli%d' % r.n
    os.makedirs(d + '/o')
    fn = d + '/' + name
    with open(fn, 'w') as f:
        f.write('text\n')
    r.case(('cli', name, use_out))
    w = spec(fn, d + '/o' if use_out else '')
    try:
        st = yup.cli(['-q', '--no-read-only', fn] + (['-o', d + '/o'] if use_out else []))
    except SystemExit as e:
        st = e.code
    ok = st == 0 and open(fn).read() == 'text\n' and os.path.isfile(w) and open(w).read() == 'text\n'
    left = sorted(os.path.join(a, x) for a, _, fs in os.walk(d) for x in fs)
    r.check(ok and left == sorted({fn, w}), 'cli', 'a run writes elsewhere than it should', name=fn, output_dir=use_out, expected=w, status=st, files=left)


EXT = ['', '.', '.c', '.yu', '.YU', '.Yu', '.yu-c', '.YU-h', '.yu-', '.yu-C_x', '.yux', '.y', '.yuc', '.yu-c-d', '.yugen', '.yu-yu', '.bak', '.ayu', '.yu2', '.-yu', '.yU-tar',
       '.pyu', '.yu-.', '.json', '.ast', '. yu', '.yu ', '.yu-\u0436']
ROOTS = ['a', 'a.b', '.a', '..a', '.', '..', 'a.', 'a..', 'A.B.C', 'x.yu', 'x.yu-h', 'yu', '.yu', 'yu-c', 'a b', '\u0436.\u0436', 'a.yugen', '-', '']
DIRS = ['', 'd/', './', '../x/', '/t/', 'a.b/', 'x.yu/', 'd//', '.h/', 'q.yu-c/']
OUTS = ['', 'o', 'o/', '/abs', '.', 'o.d', 'o.yu', '..']


def body(r):
    r.rule = 'root x extension x directory x output directory, then random names, and whole runs; distinct by names'
    so = sys.stdout
    sys.stdout = open(os.devnull, 'w')
    try:
        one(r, 'n' * 100 + '.yu-c', 'out')
        one(r, 'd' * 100 + '/' + 'n' * 200 + '.c', 'out')
        for n in ('a.c', 'a.yu', 'a.yu-c', 'a.c.yu', 'a', '.a', 'A.YU', 'a.yu-'):
            for u in (0, 1):
                through_cli(r, n, u)
    finally:
        sys.stdout = so
    for a in ROOTS:
        for b in EXT:
            if not (a + b):
                continue
            for d in DIRS:
                for o in OUTS:
                    one(r, d + a + b, o)
    while r.left() > 0:
        n = r.rng.randrange(1, 12) if r.rng.random() < .97 else r.rng.randrange(250)
        one(r, ''.join(r.rng.choice('a.yYuU-/cx_ ') for _ in range(n)).rstrip('/') or 'a', r.rng.choice(OUTS))


main(body)
