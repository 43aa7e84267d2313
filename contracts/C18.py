"""C18: proc_stream for any list of dependencies, any times of modification and any failure:
preprocessing is skipped only if it is not forced, the output exists and is newer than the
source and every dependency; otherwise the source is preprocessed, from its beginning.  The
number of removed header lines is a function of the text and of the names."""
import z3
from pyvc.values import *
from pyvc import lang as L
from . import shellmodel as S

DEP = z3.Function('dependency', z3.IntSort(), U)
TIME = z3.Function('mtime', U, z3.IntSort())
SEEN = z3.Function('examined', U, z3.BoolSort())          # the time of the file can be read


def opaque(I, name, u=None):
    n = I.fint(name + '.len').t
    I.assume(n >= 1)
    return SStr([OStr(z3.Const(name, U) if u is None else u, n)])


def key(I, v):
    s = I.strval(v)
    if not (isinstance(s, SStr) and len(s.ps) == 1 and isinstance(s.ps[0], OStr)):
        raise Unsupported('a file name of unknown origin')
    return s.ps[0].u


def proc_stream(I):
    def body(I):
        S.surroundings(I)
        fn, out = opaque(I, 'fn'), opaque(I, 'fn_o')
        text = opaque(I, 'text')
        uf, uo = key(I, fn), key(I, out)
        I.assume(uf != uo)
        n = I.fint('dependencies').t
        I.assume(n >= 0)
        force = I.fbool('force')
        python = I.fbool('python').t
        header = I.fint('header').t
        state = {'configured': False, 'pos': False, 'calls': 0, 'read': None}
        H = z3.If(python, header, 0)
        cfgs = []

        def parse_cfg(I, a, kw):
            I.oblige('the configuration is that of the source', key(I, a[0]) == uf)
            d = Obj(I.builtin_classes['dict'], DictP({}))
            if I.choose(2):
                d.payload.items['force'] = force
            else:
                I.assume(z3.Not(force.t))
            if I.choose(2):
                d.payload.items['dependency'] = Obj(I.builtin_classes['list'], ListP('fn', n=n, get=lambda k: opaque(I, 'd', DEP(k))))
            else:
                I.assume(n == 0)
            cfgs.append(d)
            return d

        def configure(I, a, kw):
            I.oblige('the configuration in force is that of the source', bool(cfgs) and a[0] is cfgs[0])
            state['configured'] = True

        def output_fn(I, a, kw):
            I.oblige('the output is named with the options of the source in force', state['configured'])
            I.oblige('the output is that of the source', key(I, a[0]) == uf)
            return out

        def getmtime(I, a, kw):
            u = key(I, a[0])
            if not I.branch(SEEN(u)):
                I.throw('OSError', 'getmtime')
            return SClock(TIME(u))

        ex = z3.Const('exists!here', z3.BoolSort())

        def isfile(I, a, kw):
            u = key(I, a[0])
            if I.branch(u == uo):
                return SBool(ex)
            return I.fbool('isfile')
        for f in ('isfile', 'exists'):
            I.overrides['os.path.' + f] = Builtin('os.path.' + f, isfile)
        I.overrides['os.path.getmtime'] = Builtin('os.path.getmtime', getmtime)
        saved = opaque(I, 'saved')

        def opn(I, a, kw):
            u = key(I, a[0])
            I.oblige('only the output is read', u == uo)
            mode = a[1] if len(a) > 1 else kw.get('mode', 'r')
            I.oblige('the output is not changed', mode == 'r')
            I.oblige('the output is read in the encoding it is saved in', kw.get('encoding', a[3] if len(a) > 3 else None) in ('utf8', 'utf-8', 'UTF-8', 'utf_8'))
            f = Obj(I.builtin_classes['object'])
            if I.choose(2):
                state['fault'] = True
                I.throw('OSError', 'open')

            def read(I, o, a, kw):
                whole(a)
                if I.choose(2):
                    state['fault'] = True
                    I.throw(('OSError', 'UnicodeDecodeError')[I.choose(2)], 'read')
                return saved
            f.ghost['methods'] = {'read': read, 'close': lambda I, o, a, kw: None}
            f.ghost['enter'] = lambda I, o: o
            f.ghost['exit'] = lambda I, o: None
            return f
        I.overrides['open'] = Builtin('open', opn)
        ys = Builtin('yushell', None)
        # what an earlier file left
        ys.attrs.update(shrink=I.fint('shrink'), output_python=I.fbool('python.before'), input_file='<before>',
                        source=Obj(I.builtin_classes['dict'], DictP({'<before>': (opaque(I, 'fn.before'), opaque(I, 'text.before'))})))

        def sread(I, o, a, kw):
            if not state['pos']:
                return ''
            state['pos'] = False
            if I.choose(2):
                state['fault'] = True
                I.throw('UnicodeDecodeError', 'read')
            return text

        def seek(I, o, a, kw):
            I.oblige('to the beginning', a[0] == 0)
            state['pos'] = True

        def part(I, o, a, kw):
            state['pos'] = False
            return I.ostr('line')
        st = Obj(I.builtin_classes['object'])
        st.ghost['methods'] = {'read': sread, 'seek': seek, 'readline': part, 'close': lambda I, o, a, kw: None}

        def shell(I, a, kw):
            I.oblige('the header is that of the source', key(I, a[0]) == key(I, text))
            I.oblige('the header is that of the source, for this output', z3.And(key(I, a[1]) == uf, key(I, a[2]) == uo))
            src = Obj(I.builtin_classes['dict'], DictP({'<input>': (fn, text)}))
            ys.attrs.update(shrink=0, output_python=SBool(python), input_file='<input>', source=src)
        ys.fn = shell
        I.overrides['yushell'] = ys

        def head(I, a, kw):
            I.oblige('the header is that of the source', key(I, a[0]) == key(I, text))
            ys.attrs['shrink'] = SInt(header)
            return (a[0], None)
        I.overrides['ps_header_python'] = Builtin('ps_header_python', head)
        res = {}

        def stream(I, a, kw):
            state['calls'] += 1
            a = list(a) + [kw[k] for k in ('_stream', 'fn', 'fn_o')[len(a):] if k in kw]
            I.oblige('the source is preprocessed from its beginning', a[0] is st and state['pos'])
            I.oblige('the source is preprocessed for its output', z3.And(key(I, a[1]) == uf, key(I, a[2]) == uo))
            I.oblige('the options of the source are in force', state['configured'])
            res['ok'], res['plain'] = I.fbool('ok'), (None, '', opaque(I, 'plain'))[I.choose(3)]
            ys.attrs['shrink'] = SInt(H)
            return (res['ok'], res['plain'], out if I.choose(2) else opaque(I, 'renamed'))
        I.overrides['_pp_stream'] = Builtin('_pp_stream', stream)
        I.overrides['shell_parse_yuconfig'] = Builtin('shell_parse_yuconfig', parse_cfg)
        I.overrides['_pp_configure'] = Builtin('_pp_configure', configure)
        I.overrides['_output_fn'] = Builtin('_output_fn', output_fn)
        k = z3.Int('k!q')
        new = lambda u: z3.And(SEEN(u), TIME(u) < TIME(uo))

        def hints(I, ctx, vals, ints, views):
            out = []
            for v, t in sorted(ints.items()):
                out.append(('the first %s dependencies are older' % v, z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < t, k < n), new(DEP(k))))))
                out.append(('the first %s files are older' % v, z3.Implies(t > n, new(uf))))
                out.append(('the first %s dependencies less one are older' % v, z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < t - 1, k < n), new(DEP(k))))))
                out.append(('of the first %s files the source is older' % v, z3.Implies(t > 0, new(uf))))
            return out
        I.hints = hints
        try:
            r = I.run_func(I.module_get(I.prog.module('pp.yup'), 'proc_stream'), [st, fn], {})
        except PyRaise as e:
            I.oblige('no exception (%s)' % e.cls.name, False)
        if not (isinstance(r, tuple) and len(r) == 4):
            I.oblige('returns the outcome, the text, the name and the number of removed lines', False)
        fresh = z3.And(ex, SEEN(uo), new(uf), z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), new(DEP(k)))))
        I.oblige('the name of the output', key(I, r[2]) == uo)
        if state['calls'] == 0:
            I.cover('reused')
            I.oblige('reused only if not forced', z3.Not(force.t))
            I.oblige('reused only if the output exists', ex)
            I.oblige('reused only if the output is newer than the source', z3.And(SEEN(uo), new(uf)))
            I.oblige('reused only if the output is newer than every dependency', z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), new(DEP(k)))))
            I.oblige('a reused output is a success', r[0] is True or I.bt(I.truth(r[0])))
            I.oblige('a reused output is returned as it was saved', I.bt(I.eq(r[1], saved)))
            I.oblige('the removed header lines of a reused output', I.it(r[3]) == H)
        else:
            I.cover('preprocessed')
            I.oblige('preprocessed once', state['calls'] == 1)
            I.oblige('the outcome of preprocessing', I.bt(I.truth(r[0])) == res['ok'].t)
            I.oblige('the text of preprocessing', r[1] is res['plain'])
            I.oblige('the removed header lines of a new output', I.it(r[3]) == H)
            I.oblige('not reused only if it is necessary', z3.Or(force.t, z3.Not(fresh), z3.BoolVal(bool(state.get('fault')))))
    return I.verify('proc_stream', body)


UNITS = [('proc_stream', proc_stream)]
