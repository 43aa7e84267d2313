"""C17 at run time: runs over sets of good, bad, missing and multi-pass files; every way of
starting the program."""
from yu import *
import contextlib
import io
import shutil
import subprocess

KINDS = ['good', 'eval', 'syntax', 'missing', 'folder', 'binary', 'passes', 'passfail', 'nameless', 'empty', 'ast']


def make(d, i, kind, rng):
    """(path, does it succeed, the outputs it makes)"""
    fn = os.path.join(d, 'f%d.c' % i)
    text, ok, outs = '', True, []
    o = os.path.join(d, 'f%d.yugen.c' % i)
    if kind == 'good':
        text, outs = 'file %d ($add 1 %d)\n' % (i, i), [(o, 'file %d %d' % (i, i + 1))]
    elif kind == 'empty':
        outs = [(o, '')]
    elif kind == 'eval':
        text, ok = 'x ($"a" 1 2)($floordiv 1 0)\n', False
    elif kind == 'syntax':
        text, ok = 'x ($set \n', False
    elif kind == 'ast':
        text, ok = '($\\a.(a))', False
    elif kind == 'missing':
        return fn, False, []
    elif kind == 'folder':
        os.mkdir(fn)
        return fn, False, []
    elif kind == 'binary':
        with open(fn, 'wb') as f:
            f.write(b'\xff\xfe\xe9\n')
        return fn, False, []
    elif kind == 'nameless':
        text, outs = 'import ($__MODULE_NAME__)\n', [(o, 'import F%d' % i)]
    else:
        n = rng.randint(1, 4) if kind.startswith('pass') else rng.choice([12, 20, 33])
        bad = rng.randrange(n) if kind == 'passfail' else n - 1 if kind == 'lastfail' else n
        text = '($import stdlib)($dict file (` a b) (`%s))($set inx ($__PASSAGE__ each-file))($set __OUTPUT_FILE__ ($inx a))v=($floordiv 12 ($inx b))\n' % (
            ' '.join('("f%d-%d.txt" %d)' % (i, k, 0 if k == bad else k + 1) for k in range(n)))
        ok = bad == n
        outs = [(os.path.join(d, 'f%d-%d.txt' % (i, k)), 'v=%d' % (12 // (k + 1))) for k in range(min(n, bad))]
        outs += [(os.path.join(d, 'f%d-%d.txt' % (i, k)), None) for k in range(min(n, bad), n)]
    with open(fn, 'w') as f:
        f.write(text)
    return fn, ok, outs


def setup(kinds, rng):
    d = os.path.abspath('r')
    if os.path.isdir(d):
        shutil.rmtree(d)
    os.mkdir(d)
    return d, [make(d, i, k, rng) for i, k in enumerate(kinds)]


def judge(r, key, kinds, files, status, how):
    bad = sum(not ok for _, ok, _ in files)
    r.check(status == bad * 4, 'status:' + how, 'the status is not four times the number of failed files', files=kinds, status=status, failed=bad)
    for (fn, ok, outs), kind in zip(files, kinds):
        for o, want in outs:
            try:
                with open(o) as f:
                    c = f.read()
            except OSError:
                c = None
            r.check((c is None) == (want is None) and (c is None or c.strip() == want.strip()), 'output:' + kind + ':' + how,
                    'the passes of a file are not made one after another', files=kinds, file=fn, output=o, content=c, expected=want)


def inproc(r, kinds):
    d, files = setup(kinds, r.rng)
    r.case(tuple(kinds))
    config.passage = r.rng.randrange(3)
    feedback.repeat = bool(r.rng.randrange(2))
    here = os.getcwd()
    os.chdir(d)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            opts = ['-q'] if r.rng.random() < .8 else []
            s = yup.cli(opts + [fn for fn, _, _ in files])
    except SystemExit as e:
        s = 'SystemExit %r' % (e.code,)
    except Exception as e:
        s = repr(e)
    finally:
        os.chdir(here)
    judge(r, 'cli', kinds, files, s, 'cli')


ENTRY = {
    'python -m pp': ['-m', 'pp'],
    'python -m yupp': ['-m', 'yupp'],
    'python -m pp.yup': ['-m', 'pp.yup'],
    'script': ['-c', 'import sys; from yupp.__main__ import main; sys.exit(main())'],
}


def outside(r, kinds, how):
    d, files = setup(kinds, r.rng)
    r.case((how, tuple(kinds)))
    lib = os.path.abspath('lib')
    if not os.path.islink(lib + '/yupp'):
        os.makedirs(lib, exist_ok=True)
        os.symlink(REPO, lib + '/yupp')
    p = subprocess.run([sys.executable] + ENTRY[how] + [fn for fn, _, _ in files] + ['-q'], cwd=d, stdin=subprocess.DEVNULL,
                       stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=120, text=True,
                       env=dict(os.environ, PYTHONPATH=REPO + os.pathsep + lib, PYTHONDONTWRITEBYTECODE='1'))
    bad = sum(not ok for _, ok, _ in files)
    if bad >= 64:
        r.check((p.returncode != 0) == (bad != 0), 'wrap' if bad % 64 == 0 else 'zero:' + how, 'the exit status is zero although files failed',
                how=how, failed=bad, status=p.returncode)
        return
    judge(r, how, kinds, files, p.returncode, how)
    r.check('Traceback' not in p.stderr, 'traceback:' + how, 'the program ends with a traceback', stderr=p.stderr[-600:], files=kinds)


def body(r):
    r.rule = 'the sequence of kinds of files (good, several ways of failing, several passes) and the way the program is started'
    for k in KINDS:
        inproc(r, [k])
        for j in KINDS:
            inproc(r, [k, j])
    inproc(r, ['missing'] * 64)
    inproc(r, ['many'])
    inproc(r, ['good', 'lastfail', 'many'])
    inproc(r, ['missing'] * 65 + ['good'])
    outside(r, ['missing'] * 64, 'python -m pp')
    for how in ENTRY:
        outside(r, ['good', 'passes', 'empty'], how)
        outside(r, ['good', 'eval', 'passfail', 'missing', 'good'], how)
    outside(r, ['missing'] * 65, 'script')
    outside(r, ['missing'] * 63, 'python -m yupp')
    while r.left() > 0:
        inproc(r, [r.rng.choice(KINDS + ['many', 'lastfail'] * (r.rng.random() < .1)) for _ in range(r.rng.randint(1, 9))])
        if r.tier == 'thorough' and r.rng.random() < .2:
            outside(r, [r.rng.choice(KINDS) for _ in range(r.rng.randint(1, 9))], r.rng.choice(list(ENTRY)))


main(body)
