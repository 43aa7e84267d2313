"""C23 at run time: real tracebacks over any set of preprocessed files, and their formatting."""
import traceback
from common import *
Std = traceback.StackSummary
import itertools
import linecache
from pylib import yutraceback3 as yt


def write(fn, s):
    with open(fn, 'w') as f:
        f.write(s)


def spell(rng, d, f):
    b = os.path.basename(f)
    ways = [f, os.path.relpath(f), os.path.join(d, 'real', '..', 'real', b), os.path.join(d, 'link', b), os.path.join(d, 'real', '.', b)]
    l = os.path.join(d, 'alias_' + b)
    if not os.path.islink(l):
        os.symlink(f, l)
    return rng.choice(ways + [l, f])


def program(rng, files):
    """Functions in any of the files, each calling the next one, at any line."""
    ns = {}
    n = rng.randint(1, 8)
    where = []
    for i in range(n):
        fn = rng.choice(files)
        line = rng.choice([1, 2, 3, 4, 5, 7, 30])
        body = 'f%d()' % (i + 1) if i < n - 1 else 'raise KeyError( 1 )'
        if i < n - 1 and rng.random() < .25:
            r = rng.randint(1, 6)
            body = 'f%d( k - 1 ) if k else f%d()' % (i, i + 1)
            src = '\n' * (line - 1) + 'def f%d( k=%d ): %s' % (i, r, body)
        else:
            src = '\n' * (line - 1) + 'def f%d( k=0 ):%s %s' % (i, rng.choice(['', '\n' * rng.randint(1, 3)]), body)
        exec(compile(src, fn, 'exec'), ns)
    try:
        ns['f0']()
    except KeyError:
        return sys.exc_info()[2]


def walk(tb):
    out = []
    while tb is not None:
        out.append((tb.tb_frame.f_code.co_filename, tb.tb_lineno, tb.tb_frame.f_code.co_name))
        tb = tb.tb_next
    return out


def extraction(r, d):
    rng = r.rng
    real = os.path.join(d, 'real')
    files = [os.path.join(real, 'm%d.py' % i) for i in range(6)]
    for f in files:
        if not os.path.exists(f):
            write(f, 'x\n' * 40)
    yt.substitution.files.clear()
    table = {}
    for f in rng.sample(files, rng.randint(0, 5)):
        for _ in range(rng.choice([1, 1, 2])):
            g, s = f[:-3] + rng.choice(['.yugen.py', '.py.out']), rng.choice([0, 1, 2, 2, 3])
            write(g, 'y\n' * 40)
            yt.substitution(spell(rng, d, f), spell(rng, d, g), s)
            table[os.path.realpath(f)] = (os.path.realpath(g), s)
    used = [spell(rng, d, f) for f in files] + ['<string>', '<stdin>', 'gone.py', rng.choice(list(table.values()))[0] if table else 'x']
    tb = program(rng, used)
    frames = walk(tb)
    want = []
    for fn, line, name in frames:
        e = table.get(os.path.realpath(fn))
        want.append((e[0], max(1, line - (e[1] - 1)), name) if e else (fn, line, name))
    how = rng.randrange(4)
    if how == 0:
        got = traceback.extract_tb(tb)
    elif how == 1:
        got = yt.StackSummary.extract(traceback.walk_tb(tb))
    elif how == 2:
        got = traceback.TracebackException(KeyError, KeyError(1), tb).stack
    else:
        got = yt.StackSummary.extract(traceback.walk_tb(tb), lookup_lines=False, capture_locals=bool(rng.randrange(2)))
    key = (tuple(frames), tuple(sorted(table.items())), how)
    r.case(key)
    got_ = [(f.filename, f.lineno, f.name) for f in got]
    r.check(len(got_) == len(want), 'count', 'a frame was added or dropped', want=want, got=got_)
    for w, g in zip(want, got_):
        if g != w:
            pre = g[0] != w[0]
            r.fail('frame', 'a frame is shown as %r, it is %r' % (g, w), want=want, got=got_, table=table)
            break
    return got


def formatting(r, got):
    rng = r.rng
    if got is None or rng.random() < .7:
        fs = []
        for _ in range(rng.randint(0, 6)):
            f = (rng.choice(['a.py', 'b.py']), rng.choice([1, 2]), rng.choice(['f', 'g']))
            for _ in range(rng.choice([1, 1, 2, 3, 4, 5, 7])):
                fs.append(traceback.FrameSummary(f[0], f[1], f[2], lookup_line=False, locals={'v': 1} if rng.random() < .1 else None,
                                                 line=rng.choice([None, '', '  code  '])))
    else:
        fs = list(got)
    a, b = yt.StackSummary(), Std()
    a.extend(fs)
    b.extend(fs)
    x, y = a.format(), b.format()
    r.case(('format', tuple((f.filename, f.lineno, f.name) for f in fs)))
    r.check(x == y, 'format', 'the frames are not shown one by one, in order', want=y, got=x)
    z = list(yt.StackSummary.from_list([f if rng.random() < .5 else (f.filename, f.lineno, f.name, f.line) for f in fs]))
    r.check([(f.filename, f.lineno, f.name, f.line) for f in z] == [(f.filename, f.lineno, f.name, f.line) for f in fs], 'from_list',
            'a list of entries is not kept', got=z)


def printing(r, tb_of):
    """print_exc and the hook of the interpreter show the same frames."""
    import io
    rng = r.rng
    d = os.getcwd()
    f = os.path.join(d, 'real', 'm0.py')
    g = f[:-3] + '.yugen.py'
    write(g, 'y\n' * 40)
    s = rng.choice([1, 2])
    yt.substitution.files.clear()
    yt.substitution(f, g, s)
    line = rng.choice([1, 2, 5])
    other = rng.choice(['/nowhere/o.py', '<string>'])
    ns = {}
    exec(compile('\n' * (line - 1) + 'def f(): raise KeyError( 1 )', f, 'exec'), ns)
    exec(compile('\n' * 6 + 'def g(): f()', other, 'exec'), ns)
    err = io.StringIO()
    old, sys.stderr = sys.stderr, err
    try:
        try:
            ns['g']()
        except KeyError:
            if rng.randrange(2):
                yt.print_exc()
            else:
                yt.excepthook(*sys.exc_info())
    finally:
        sys.stderr = old
    t = err.getvalue()
    a = '  File "%s", line %d, in g\n' % (other, 7)
    b = '  File "%s", line %d, in f\n' % (os.path.realpath(g), max(1, line - (s - 1)))
    r.case(('print', line, s, other))
    r.check(0 <= t.find(a) < t.find(b), 'print', 'the traceback printed does not name the frames', want=[a, b], got=t)


def body(r):
    d = os.getcwd()
    os.makedirs('real', exist_ok=True)
    if not os.path.islink('link'):
        os.symlink('real', 'link')
    r.rule = ('a program of functions in several files (named absolutely, relatively, through links), a table of preprocessed files; '
              'oracle: the frames of the traceback object, mapped by the table; formatting: the standard library')
    while r.left() > 0:
        got = extraction(r, d)
        formatting(r, got)
        if r.n % 5 == 0:
            printing(r, None)


main(body)
