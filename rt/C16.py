"""C16 at run time: whole runs of the real program with a failure, or its end, at every
file operation."""
from yu import *
import fault
import shutil
import stat as _stat
from itertools import product

fault.install(yup, yugen)

SOURCES = {
    'good': ('first ($set a 1)line ($a)\n', True),
    'empty': ('', True),
    'big': ('x' * 3000 + '\n', True),
    'huge': ('(${} "abc" * 1000000)\n', True),
    'long': ('int a; ' * 10000 + 'b\n', True),
    'bad syntax': ('text ($ \n', False),
    'bad eval': ('text ($("a" 1 2) {1/0})\n', False),
    'ast': ('($\\p.(p))\n', False),
    'ast 2': ('a ($ \\x.\\y.(x y) 1) b\n', False),
    'renamed': ('($set __OUTPUT_FILE__ "other.txt")renamed\n', True),
    'surrogate': ('(${}chr(0xd800))\n', False),
}
NAMES = ['a.c', 'a.yu-c', 'a.c.yu', 'a', 'x.ast', 'x.yu-ast', 'a.yu', 'a.bak', 'x.bak.yu']


def spec_out(fn):
    return yup._output_fn(fn)


def one(r, key, name, old, bak, opts, at, kind, browse=False):
    text, good = SOURCES[key]
    d = os.path.abspath('r')
    if os.path.isdir(d):
        shutil.rmtree(d)
    os.mkdir(d)
    fn = d + '/' + name
    with fault.real_open(fn, 'w') as f:
        f.write(text)
    yup.shell.output_dir = ''
    out = d + '/other.txt' if key == 'renamed' else spec_out(fn)
    here = os.getcwd()
    P, B = 'previous output\n', 'previous backup\n'
    bk = out + '.bak'
    if out == fn or bk == fn:
        return 0
    if old:
        with fault.real_open(out, 'w') as f:
            f.write(P)
        if old == 2:
            fault.real['chmod'](out, _stat.S_IREAD)
    if bak:
        with fault.real_open(bk, 'w') as f:
            f.write(B)
        fault.real['chmod'](bk, _stat.S_IREAD)

    def content(p):
        try:
            with fault.real_open(p) as f:
                return f.read()
        except OSError:
            return None
    info = dict(source=key, name=name, old=old, bak=bak, options=opts, at=at, kind=kind)

    def watch(op, path):
        if old and content(out) != P and content(bk) != P:
            r.fail('lost:' + op, 'after %s the previous output is gone' % op, ops=F.ops, **info)
    F = fault.Faults(at, kind, watch)
    r.case((key, name, old, bak, tuple(opts), at, kind))
    config.passage = 0

    def go():
        if key == 'renamed':
            os.chdir(d)
            try:
                return yup.cli(['-q', name] + opts)
            finally:
                os.chdir(here)
        return yup.cli(['-q', fn] + opts)
    st, v = fault.run(F, go)
    watch('the run', out)
    if st == 'crash' or (st == 'ok' and v not in (0, 4)):
        st = 'crash' if st == 'crash' else 'raise'
    if st == 'raise':
        r.check(F.fired and kind == 'crash', 'raise', 'a run over a file ends with a Python exception', error=v, ops=F.ops, **info)
    if st == 'ok' and v == 0:
        want = {'good': 'first line 1\n', 'empty': '', 'big': 'x' * 3000 + '\n', 'huge': 'abc' * 1000000, 'long': 'int a; ' * 10000 + 'b\n', 'renamed': 'renamed\n'}.get(key)
        c = content(out)
        r.check(good is True and c is not None and c.strip('\n') == want.strip('\n'), 'success',
                'a run is reported as successful without the complete output', content=c and c[:200], ops=F.ops, **info)
    if st == 'ok' and v != 0 and at is None:
        r.check(good is not True, 'failure', 'a good run is reported as failed', ops=F.ops, **info)
    if key == 'surrogate':
        good = None                                     # translated, but it cannot be written
    if good is False and old and st != 'crash':
        r.check(content(out) == P and (not bak or content(bk) == B), 'touched', 'a failed translation changes the output or its backup',
                out=content(out), ops=F.ops, **info)
    if good is False and not old and st != 'crash':
        r.check(content(out) is None and (not bak or content(bk) == B), 'touched', 'a failed translation changes the output or its backup',
                out=content(out), ops=F.ops, **info)
    return F.n


def undecodable(r):
    for old in (0, 1):
        if os.path.isdir('r'):
            shutil.rmtree('r')
        os.mkdir('r')
        with fault.real_open('r/a.c', 'wb') as f:
            f.write(b'caf\xe9\n')
        if old:
            with fault.real_open('r/a.yugen.c', 'w') as f:
                f.write('P')
        r.case(('undecodable', old))
        st, v = fault.run(fault.Faults(), lambda: yup.cli(['-q', 'r/a.c']))
        r.check(st == 'ok' and v == 4, 'undecodable', 'a source that cannot be decoded is not counted as failed', got=(st, v))
        if old:
            r.check(fault.real_open('r/a.yugen.c').read() == 'P', 'touched', 'a failed translation changes the output', source='undecodable')


def body(r):
    r.rule = 'source x name x previous output x backup x options x (operation, failure or end); distinct by all of these'
    so = sys.stdout
    sys.stdout = fault.real_open(os.devnull, 'w')
    try:
        undecodable(r)
        OPTS = [[], ['--no-read-only'], ['--pp-browse']]
        for key in SOURCES:
            if key in ('huge', 'long'):
                one(r, key, 'a.c', 1, 1, [], None, None)
                continue
            for name in (NAMES if key in ('good', 'ast', 'bad syntax') else ['a.c']):
                for old, bak in product((0, 1, 2), (0, 1)):
                    for o in OPTS if key in ('good', 'ast') and name == 'a.c' else OPTS[:1]:
                        n = one(r, key, name, old, bak, o, None, None)
                        if (name in ('a.c', 'x.ast') or r.tier == 'thorough'):
                            for at in range(n or 0):
                                for kind in ('fail', 'crash', 'partial'):
                                    one(r, key, name, old, bak, o, at, kind)
                if r.left() < -60:
                    return
        while r.left() > 0:
            key = r.rng.choice([k for k in SOURCES if k not in ('huge', 'long') or r.rng.random() < .05])
            one(r, key, r.rng.choice(NAMES) if key != 'renamed' else 'a.c', r.rng.randrange(3), r.rng.randrange(2), r.rng.choice(OPTS),
                r.rng.choice([None] + list(range(14))), r.rng.choice(['fail', 'crash', 'partial']))
    finally:
        sys.stdout = so


main(body)
