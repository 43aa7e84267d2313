"""C19 at run time: random directories, files and sequences of imports, against a search and a
table of their own."""
import builtins
import shutil
from yu import *

NAMES = ['a', 'b', 'c', 'hlib']
LIB = os.path.join(REPO, 'lib')
ran = builtins._c19_ran = []


def body(r):
    root = os.path.abspath('tree')
    r.rule = 'random trees of directories, configurations and import sequences; distinct by all of them'
    rng = r.rng
    long(r, root)
    while r.left() > 0:
        os.chdir('/')
        if os.path.isdir(root):
            shutil.rmtree(root)
        one(r, rng, root)


def long(r, root):
    """A long file is included as a whole."""
    os.makedirs(root)
    os.chdir(root)
    t = 'int a; ' * 10000
    with open('long.yu', 'w') as f:
        f.write(t + 'b\n')
    r.case('long', sample='long')
    limit(60)
    try:
        got = translate('($import "long.yu")', None, None, directory=[])
    except Exception as e:
        if 'has no attribute' in str(e):
            return
        got = repr(e)[:300]
    finally:
        unlimit()
    r.check(''.join(got.split()) == ''.join(t.split()) + 'b', 'long', 'a long file is included as a whole', length=len(got), got=got[-200:])


def one(r, rng, root):
    dirs = [os.path.join(root, d) for d in ('cwd', 'src', 'd1', 'd2', 'd3')]
    files = {}
    tags = iter(range(1000))
    for d in dirs:
        os.makedirs(os.path.join(d, 'sub'))
    for d in dirs:
        for n in NAMES:
            for sub in ('', 'sub/'):
                p = os.path.join(d, sub + n + '.yu')
                k = rng.random()
                if k < .3:
                    files[p] = None
                elif k < .36:
                    os.makedirs(p)
                if rng.random() < .15:
                    files[os.path.join(d, sub + n + '.py.yu')] = None
                if rng.random() < .15:
                    files[os.path.join(d, sub + n)] = None
                p = os.path.join(d, sub + n + rng.choice(['.py', '.py', '.PY']))
                if rng.random() < .25:
                    tag = 't%d' % next(tags)
                    with open(p, 'w') as f:
                        f.write('import builtins\nbuiltins._c19_ran.append(%r)\ndef fun_%s(): return %r\n' % (tag, n, tag))
                    files[p] = tag
    os.chdir(dirs[0])
    conf = [rng.choice([d, os.path.relpath(d)]) for d in rng.sample(dirs[2:], rng.randrange(4))]
    if rng.random() < .2:
        # many directories that have nothing
        conf[rng.randrange(len(conf) + 1):0] = [os.path.join(root, 'none%d' % i) for i in range(rng.randint(4, 40))]
    with_input = rng.random() < .8
    main = rng.choice([os.path.join(dirs[1], 'main.yu-c'), '../src/main.yu-c', os.path.join(dirs[0], 'main.yu-c'), 'main.yu-c',
                       os.path.join(dirs[1], 'a.yu')]) if with_input else None
    search = ([os.path.dirname(main)] if main else []) + conf + [LIB]

    def find(name):
        if os.path.isfile(name):
            return os.path.abspath(name)
        for d in search:
            p = os.path.join(d, name)
            if os.path.isfile(p):
                return os.path.abspath(p)
        return None

    def imports(lo):
        """Import forms; quoted ones only of files later in the order (no endless inclusion)."""
        out = []
        for _ in range(rng.randrange(0, 4)):
            k = rng.randrange(4)
            n = rng.choice(NAMES)
            if k == 0:
                out.append(('lib', n))
            elif k == 1 and lo < len(NAMES):
                out.append(('inc', rng.choice(['', 'sub/']) + rng.choice(NAMES[lo:]) + rng.choice(['.yu', '.yu', '.yu', '.py.yu', ''])))
            elif k == 2:
                out.append(('py', rng.choice(['', '', 'sub/']) + rng.choice(NAMES) + rng.choice(['.py', '.py', '.PY'])))
            elif k == 3 and rng.random() < .15:
                out.append(('lib', 'missing'))
        return out

    contents = {}
    for p in [p for p in files if files[p] is None]:
        n = os.path.basename(p).split('.')[0]
        contents[p] = ('t%d;' % next(tags), imports(NAMES.index(n) + 1))
    contents['main'] = ('main;', imports(0) + imports(0))

    def text(p):
        tag, imps = contents[p]
        out = tag
        for k, n in imps:
            out += rng.choice(['', '\n', ' ', '\r\n']) + '($import %s)' % (n if k == 'lib' else '"%s"' % n) + rng.choice(['', '.'])
        return out
    texts = {p: text(p) for p in contents}
    for p, t in texts.items():
        if p != 'main':
            with open(p, 'wb') as f:
                f.write(t.encode())
    calls = [n for n in NAMES if rng.random() < .3]
    # the specification
    included = {os.path.basename(main) if main else '<stdin>'}
    scripts, want_ran, out, fun = set(), [], [], {}

    class Missing(Exception):
        pass

    def expand(tag, imps):
        out.append(tag)
        for k, n in imps:
            if k == 'py':
                if n in scripts:
                    continue
                p = find(n)
                if p is None:
                    raise Missing()
                want_ran.append(files[p])
                fun[os.path.basename(n)[:-3]] = files[p]
                scripts.add(n)
                continue
            key = n + '.yu' if k == 'lib' else n
            if k == 'lib' and key in included:
                continue
            p = find(key)
            if p is None:
                raise Missing()
            included.add(key)
            if p in contents:
                expand(*contents[p])
    try:
        expand(*contents['main'])
        want = ''.join(out)
    except Missing:
        want = None
    prog = texts['main'] + '\n' + ''.join('($fun_%s);' % n for n in calls)
    r.case((tuple(sorted(texts.items())), main, tuple(conf), tuple(calls)), sample=repr((main, conf, prog)))
    case = dict(main=main, directories=conf, text=prog, files={os.path.relpath(k, root): v for k, v in texts.items() if k != 'main'},
                scripts={os.path.relpath(k, root): v for k, v in files.items() if v})
    del ran[:]
    limit(20)
    got = err = None
    try:
        got = translate(prog, main, None, directory=list(conf))
    except Timeout:
        return r.fail('endless', 'imports end', **case)
    except Exception as e:
        err = '%s: %s' % (type(e).__name__, e)
    finally:
        unlimit()
    if want is None:
        r.check(err is not None and 'ps_import' in err, 'missing', 'a missing file is reported', got=got, error=err, **case)
    else:
        if not r.check(err is None, 'error', 'files that exist are imported', error=err, **case):
            return
        r.check('\r' not in got, 'eol', 'ends of lines of an imported file are those of the text', got=got, **case)
        keep = ''.join(ch for ch in got if ch.isalnum() or ch == ';')
        keep = keep[:len(want)]
        r.check(keep == want, 'text', 'the files found first are included', got=got, want=want, **case)
        tail = ''.join(got.split())[-len(''.join('%s;' % fun.get(n, '') for n in calls)):] if calls else ''
        for n in calls:
            if n in fun:
                r.check(fun[n] + ';' in got, 'function', 'functions of a script are those of the file found', got=got, name=n, expected=fun[n], **case)
    r.check(ran == want_ran, 'script', 'a script is executed once', ran=list(ran), want=want_ran, **case)


main(body)
