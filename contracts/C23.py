"""C23: StackSummary.extract over a stack of any depth and any table of preprocessed files:
every frame becomes one entry, in order; a frame of a preprocessed source, by whatever path,
has its generated file and its lowered line, every other frame has its own."""
import z3
from pyvc.values import *

IntS = z3.IntSort()
FILE = z3.Function('frame file', IntS, U)
LINE = z3.Function('frame line', IntS, IntS)
NAME = z3.Function('frame function', IntS, U)
REAL = z3.Function('realpath', U, U)
KNOWN = z3.Function('preprocessed', U, z3.BoolSort())
OUT = z3.Function('generated file', U, U)
SHRINK = z3.Function('removed lines', U, IntS)


def ostr(u):
    return SStr([OStr(u, z3.Function('length', U, IntS)(u))])


def key(I, v):
    s = I.strval(v)
    if not (isinstance(s, SStr) and len(s.ps) == 1 and isinstance(s.ps[0], OStr)):
        raise Unsupported('a file name of unknown origin')
    return s.ps[0].u


class Table:
    """substitution.files: a dict with any content."""

    def __init__(self, I, module):
        def has(I, o, k):
            return SBool(KNOWN(key(I, k)))

        def get(I, o, k):
            u = key(I, k)
            if not I.branch(KNOWN(u)):
                I.throw('KeyError', 'file')
            return (ostr(OUT(u)), SInt(SHRINK(u)))

        def dget(I, o, a, kw):
            if I.branch(KNOWN(key(I, a[0]))):
                return get(I, o, a[0])
            return a[1] if len(a) > 1 else None
        self.obj = Obj(I.builtin_classes['object'])
        self.obj.ghost.update(contains=has, getitem=get, methods={'get': dget})


def surroundings(I, f):
    I.overrides['os.path.realpath'] = Builtin('realpath', lambda I, a, kw: ostr(REAL(key(I, a[0]))))
    t = Table(I, None)
    sub = I.module_get(I.prog.module('pylib.yutraceback3'), 'substitution')
    sub.attrs['files'] = t.obj

    def hook(I, name):
        if name.startswith('linecache.'):
            return Builtin(name, lambda I, a, kw: None)
        return None
    I.lib_hook = hook

    def mkset(I, a, kw):
        o = Obj(I.builtin_classes['object'])
        o.ghost['methods'] = {'add': lambda I, o, a, kw: None}
        o.ghost['iter'] = lambda I, o: IterSrc(f.n_names, lambda k: I.ostr('name'))
        return o
    I.overrides['set'] = Builtin('set', mkset)

    def summary(I, a, kw):
        a = list(a)
        o = Obj(I.builtin_classes['object'], None, {'filename': a[0], 'lineno': a[1], 'name': a[2], 'line': kw.get('line')})
        o.ghost['summary'] = True
        return o
    I.overrides['FrameSummary'] = Builtin('FrameSummary', summary)


class Frames:
    def __init__(self, I):
        self.n = I.fint('frames').t
        self.n_names = I.fint('names').t
        I.assume(self.n >= 0)
        I.assume(self.n_names >= 0)

    def get(self, I, k):
        I.assume(LINE(k) >= 1)
        co = Obj(I.builtin_classes['object'], None, {'co_filename': ostr(FILE(k)), 'co_name': ostr(NAME(k))})
        fr = Obj(I.builtin_classes['object'], None, {'f_code': co, 'f_globals': None, 'f_locals': None})
        return (fr, SInt(LINE(k)))


def extract(I):
    def body(I):
        f = Frames(I)
        surroundings(I, f)
        I.overrides['sys.tracebacklimit'] = None
        cls = I.module_get(I.prog.module('pylib.yutraceback3'), 'StackSummary')
        made = []

        def entry(I, o, x):
            """The next entry of the summary."""
            k = I.it(I.list_len(o))
            if not (isinstance(x, Obj) and x.ghost.get('summary')):
                I.oblige('an entry is a frame', False)
            u = REAL(FILE(k))
            line = LINE(k) - (SHRINK(u) - 1)
            I.oblige('no entry beyond the frames', k < f.n)
            I.oblige('a frame of a preprocessed source is shown in its generated file, any other one in its own',
                     key(I, x.fields['filename']) == z3.If(KNOWN(u), OUT(u), FILE(k)))
            I.oblige('its line is lowered by the removed lines less one, but not below one; any other one is kept',
                     I.it(x.fields['lineno']) == z3.If(KNOWN(u), z3.If(line < 1, 1, line), LINE(k)))
            I.oblige('the function is kept', key(I, x.fields['name']) == NAME(k))

        def on_new(I, c, o):
            if c is cls:
                o.ghost['append'] = entry
                made.append(o)
        I.on_new = on_new
        I.sym_field = lambda I, o, name: I.ostr('line') if name == 'line' else NotImplemented
        src = IterSrc(f.n, lambda k: f.get(I, k))
        I.hints = lambda I, ctx, vals, ints, views: [('as many entries as frames (%s)' % k, I.it(I.list_len(made[0])) == t)
                                                     for k, t in sorted(ints.items()) if made]
        kw = {'limit': None, 'lookup_lines': I.choose(2) == 1, 'capture_locals': False}
        try:
            r = I.call(I.getattr(cls, 'extract'), [src], kw)
        except PyRaise as e:
            I.oblige('no exception (%s)' % e.cls.name, False)
        I.cover('a summary')
        I.oblige('the summary is returned', len(made) == 1 and r is made[0])
        I.oblige('as many entries as frames', I.it(I.list_len(r)) == f.n)
    return I.verify('StackSummary.extract', body)


def substitution(I):
    def body(I):
        I.overrides['os.path.realpath'] = Builtin('realpath', lambda I, a, kw: ostr(REAL(key(I, a[0]))))
        m = I.prog.module('pylib.yutraceback3')
        sub = I.module_get(m, 'substitution')
        written = []
        t = Obj(I.builtin_classes['object'])
        t.ghost['setitem'] = lambda I, o, k, v: written.append((k, v))
        sub.attrs['files'] = t
        a, b, n = ostr(z3.Const('fn', U)), ostr(z3.Const('fn_o', U)), I.fint('shrink')
        try:
            I.run_func(sub, [a, b, n], {})
        except PyRaise as e:
            I.oblige('no exception (%s)' % e.cls.name, False)
        I.cover('kept')
        I.oblige('one entry of the table is written', len(written) == 1)
        k, v = written[0]
        I.oblige('under the real path of the source', key(I, k) == REAL(key(I, a)))
        if not (isinstance(v, tuple) and len(v) == 2):
            I.oblige('the generated file and the number of lines', False)
        I.oblige('with the real path of the generated file', key(I, v[0]) == REAL(key(I, b)))
        I.oblige('with the number of removed lines', I.it(v[1]) == n.t)
    return I.verify('substitution', body)


ROWS = z3.Function('rows before', IntS, IntS)
RUN = z3.Function('run length', IntS, IntS)
CODE = z3.Function('source line', IntS, U)


def same(k):
    """Frame k is the same place as the frame before."""
    return z3.And(k > 0, FILE(k) == FILE(k - 1), LINE(k) == LINE(k - 1), NAME(k) == NAME(k - 1))


def format_(I):
    """Runs of the same place: three rows and the number of the others; everything else: one row per frame."""
    def body(I):
        n = I.fint('frames').t
        I.assume(n >= 0)
        k = z3.Int('k!q')
        msg = lambda k: z3.And(k > 0, z3.Not(z3.And(k < n, same(k))), RUN(k - 1) > 3)
        I.assume(ROWS(0) == 0)
        I.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), z3.And(
            RUN(k) == z3.If(same(k), RUN(k - 1) + 1, 1),
            RUN(k) >= 1,
            ROWS(k + 1) == ROWS(k) + z3.If(msg(k), 1, 0) + z3.If(RUN(k) <= 3, 1, 0)))))
        cur = []

        def get(k):
            del cur[:]
            cur.append(k)
            I.assume(LINE(k) >= 1)
            return Obj(I.builtin_classes['object'], None, {'filename': ostr(FILE(k)), 'lineno': SInt(LINE(k)), 'name': ostr(NAME(k)),
                                                           'line': ostr(CODE(k)), 'locals': None})
        cls = I.module_get(I.prog.module('pylib.yutraceback3'), 'StackSummary')
        stack = Obj(cls, ListP('fn', n=n, get=get))
        res = []

        def entry(I, o, x):
            c = cur[0] if cur else n
            pos = I.it(I.list_len(o))
            x = I.strval(x)
            if x is None:
                I.oblige('a row is a text', False)
            ps = [x] if isinstance(x, str) else list(x.ps)
            fs = [p for p in ps if isinstance(p, OStr) and z3.is_app(p.u) and p.u.decl().eq(FILE)]
            if not fs:
                t = I.strval(x)
                z = I.zstr(t)
                if z is None:
                    raise Unsupported('a row of unknown origin')
                m = RUN(c - 1) - 3
                I.oblige('a message tells how often the last place was repeated', z3.And(msg(c), z == z3.Concat(
                    z3.StringVal('  [Previous line repeated '), z3.IntToStr(m), z3.StringVal(' more time'), z3.If(m > 1, z3.StringVal('s'), z3.StringVal('')), z3.StringVal(']\n'))))
                I.oblige('the message comes next', pos == ROWS(c))
                return
            want = SStr(['  File "', OStr(FILE(c), z3.Function('length', U, IntS)(FILE(c))), '", line ', ZStr(z3.IntToStr(LINE(c))), ', in ',
                         OStr(NAME(c), z3.Function('length', U, IntS)(NAME(c))), '\n'])
            head = SStr(ps[:len(want.ps)])
            if not (len(ps) >= len(want.ps)):
                I.oblige('a row names file, line and function of its frame', False)
            a = ps[len(want.ps) - 1]
            if isinstance(a, str) and isinstance(want.ps[-1], str) and a.startswith(want.ps[-1]):
                head = SStr(ps[:len(want.ps) - 1] + [want.ps[-1]])
            I.oblige('a row names file, line and function of its frame', I.bt(I.eq(head, want)))
            I.oblige('a row is shown for the first three of a run', z3.And(c < n, RUN(c) <= 3))
            I.oblige('the row comes next', pos == ROWS(c) + z3.If(msg(c), 1, 0))

        def hints(I, ctx, vals, ints, views):
            out = []
            o = made(vals)
            ks = [t for x, t in ints.items() if x == ctx['idx']]
            for kk in ks:
                if o is not None:
                    out.append(('rows', I.it(I.list_len(o)) == ROWS(kk)))
                for x, v in sorted(vals.items()):
                    if v is None:
                        out.append(('first %s' % x, kk == 0))
                    s = I.strval(v) if not isinstance(v, (int, SInt, Obj)) else None
                    if isinstance(s, SStr) and len(s.ps) == 1 and isinstance(s.ps[0], OStr):
                        out.append(('last file %s' % x, s.ps[0].u == FILE(kk - 1)))
                        out.append(('last function %s' % x, s.ps[0].u == NAME(kk - 1)))
                for x, t in sorted(ints.items()):
                    if x != ctx['idx'] and not x.endswith('.len'):
                        out.append(('last line %s' % x, t == LINE(kk - 1)))
                        out.append(('run %s' % x, t == RUN(kk - 1)))
                out.append(('not first', kk > 0))
            return out

        def made(vals):
            for v in vals.values():
                if isinstance(v, Obj) and isinstance(v.payload, ListP) and v.ghost.get('append') is entry:
                    return v

        def new_list(items=()):
            o = Obj(I.builtin_classes['list'], ListP('conc', items=list(items)))
            if not items and not res and len(I.frames) and I.frames[-1].func is not None and I.frames[-1].func.name == 'format':
                o.ghost['append'] = entry
                res.append(o)
            return o
        I.new_list = new_list
        I.hints = hints
        try:
            r = I.run_func(I.find(cls, 'format'), [stack], {})
        except PyRaise as e:
            I.oblige('no exception (%s)' % e.cls.name, False)
        if not (res and r is res[0]):
            raise Unsupported('the rows are collected in another list')
        I.cover('rows')
        I.oblige('a row for every frame of a run up to three, and a message for the others', I.it(I.list_len(r)) == ROWS(n) + z3.If(msg(n), 1, 0))
    return I.verify('StackSummary.format', body)


def decode(I):
    """The codec enters every source that was preprocessed under its name, with what proc_stream reports."""
    def body(I):
        fn, out, n = ostr(z3.Const('fn', U)), ostr(z3.Const('fn_o', U)), I.fint('shrink')
        stream = Obj(I.builtin_classes['object'])
        ok, code = I.fbool('ok'), I.ostr('code')
        entered, raised = [], []

        def proc(I, a, kw):
            a = list(a) + [kw[k] for k in ('_stream', 'fn')[len(a):] if k in kw]
            I.oblige('the stream of that source is preprocessed', a[0] is stream and I.strval(a[1]) is not None and key(I, a[1]).eq(fn.ps[0].u))
            if I.choose(2):
                raised.append(True)
                I.throw('ValueError', 'proc_stream')
            return (ok, code, out, n)
        I.overrides['proc_stream'] = Builtin('proc_stream', proc)

        def sub(I, a, kw):
            a = list(a) + [kw[k] for k in ('fn', 'fn_o', 'shrink')[len(a):] if k in kw]
            entered.append(a)
        tb = Obj(I.builtin_classes['object'], None, {'substitution': Builtin('substitution', sub), 'print_exc': Builtin('print_exc', lambda I, a, kw: None)})
        I.overrides['pylib.yutraceback'] = tb

        def parse(I, a, kw):
            if I.choose(2):
                I.throw('SyntaxError', 'parse')
        I.overrides['parse'] = Builtin('parse', parse)
        I.overrides['ast.parse'] = I.overrides['parse']
        try:
            r = I.run_func(I.module_get(I.prog.module('__init__'), 'decode_stream'), [fn, stream], {})
        except PyRaise as e:
            I.oblige('no exception (%s)' % e.cls.name, False)
        if raised or not I.branch(ok.t):
            I.cover('failed')
            I.oblige('a source that was not preprocessed has no text', r == '' and isinstance(r, str))
            return
        I.cover('preprocessed')
        I.oblige('a preprocessed source is entered once', len(entered) == 1 and len(entered[0]) == 3)
        a = entered[0]
        I.oblige('under its name', key(I, a[0]) == key(I, fn))
        I.oblige('with its generated file', key(I, a[1]) == key(I, out))
        I.oblige('with the number of removed lines', I.it(a[2]) == n.t)
    return I.verify('decode_stream', body)


UNITS = [('StackSummary.extract', extract), ('substitution', substitution), ('decode_stream', decode), ('StackSummary.format', format_)]
TRUSTED = ['FrameSummary and linecache by contract (a FrameSummary has the file, line and name it is made of)', 'os.path.realpath is a function']
ASSUMPTIONS = ['the lines of frames are positive', 'no limit is given (a limit selects frames before)', 'the program uses traceback.StackSummary']
