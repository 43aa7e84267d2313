"""C13: lists, loops and subscripts.  The list built so far is a fold over the elements:
OUT(k+1) is OUT(k) followed by what element k contributes."""
import z3
from pyvc.values import *
from . import evalmodel as E
from .C11 import count, ARG
from .C10 import same

IntS = z3.IntSort()
SeqU = z3.SeqSort(U)
EL = z3.Function('element', IntS, U)
OUT = z3.Function('list so far', IntS, SeqU)
EMB = z3.Function('embedded', IntS, SeqU)
APP = z3.Function('value of application', U, U, U)
FOLD = z3.Function('value after functions', U, IntS, U)


def seqs(I, ctx):
    for n, v in sorted(ctx['fr'].vars.items()):
        if isinstance(v, Obj) and isinstance(v.payload, ListP) and v.payload.kind in ('seq', 'conc') and v.cls.name in ('LIST', 'list'):
            try:
                yield n, I.seq_of(v)
            except Unsupported:
                pass


def hazard(I):
    y = I.module_get(I.prog.module('pp.yugen'), 'yushell')
    h = Obj(I.builtin_classes['list'], ListP('conc', items=[]))
    h.ghost['append'] = lambda I, o, x: None
    h.ghost['methods'] = {'append': lambda I, o, a, kw: None}
    y.attrs['hazard'] = h


def elements(I):
    """A list: every element is evaluated once, in order; the result is what they contribute."""
    def body(I):
        S = E.Step(I, raising=True)
        env = E.env(I)
        n = count(I, 'elements')
        src = I.new(['LIST', 'list'][I.choose(2)], ListP('fn', n=n, get=lambda k: I.sym(None, u=EL(k))))
        hazard(I)
        seen = Obj(I.builtin_classes['list'], ListP('tup', n=z3.IntVal(0), arrs=[z3.K(IntS, z3.IntVal(0))], k=0))
        I.roots = {'evaluated': seen}
        raised = []

        def ev(I, x, e):
            k = I.it(I.list_len(seen))
            I.oblige('an element is evaluated in the environment of the list', e is env)
            I.oblige('every element is evaluated at most once', k < n)
            I.oblige('the elements are evaluated in order', I.box(x) == EL(k))
            I.list_method(seen, 'append', [0], {})
            kind = I.choose(6)
            if kind == 0:
                r, part = None, z3.Empty(SeqU)
            elif kind == 1:
                r = I.sym(None, 'value')
                I.assume(z3.Not(I.bt(I.isinst(r, I.cls('EMBED')))))
                I.assume(I.typ(r.u) != I.tag('NoneType'))
                part = z3.Unit(r.u)
            elif kind == 2:
                r = I.new('EMBED', None, ast=I.new('LIST', ListP('seq', seq=EMB(k))))
                part = EMB(k)
            elif kind == 3:
                r = I.new('EMBED', None, ast=I.sym(['VAR', 'APPLY'], 'irreducible'))
                part = z3.Unit(I.box(r))
            elif kind == 4:
                a = I.sym(['INT', 'STR', 'FLOAT', 'L_CLOSURE', 'ATOM', 'str', 'int'], 'embedded')
                r = I.new('EMBED', None, ast=a)
                part = z3.Unit(I.box(a))
            else:
                raised.append(1)
                I.throw('TypeError', 'yueval: message')
            I.assume(OUT(k + 1) == z3.Concat(OUT(k), part))
            return r
        S.on_eval = ev
        I.assume(OUT(0) == z3.Empty(SeqU))

        def hints(I, ctx, vals, ints, views):
            k = I.it(I.list_len(seen))
            return [('%s evaluated' % a, k == t) for a, t in sorted(ints.items())] + \
                   [('%s holds what was contributed' % a, s == OUT(k)) for a, s in seqs(I, ctx)]
        I.hints = hints
        out = S.run(src, env)
        if raised:
            I.oblige('an error of an element is passed on', out[0] == 'raise')
            return
        I.cover('done')
        ok = out[0] == 'value' and isinstance(out[1], Obj) and out[1].cls.name == 'LIST'
        I.oblige('the value of a list is a list', ok)
        I.oblige('every element is evaluated', I.it(I.list_len(seen)) == n)
        I.oblige('the elements of the value are what the elements contribute, in order', I.seq_of(out[1]) == OUT(n))
    return I.verify('yueval.list', body)


def app(I, S, env, fn, args, named=None):
    """The application whose function and arguments evaluate to fn and args."""
    f, a = I.sym(['VAR', 'LAMBDA', 'APPLY', 'INT', 'LIST'], 'function'), I.new('LIST', ListP('conc', items=[]))
    n = E.node(I, 'APPLY', fn=f, args=a, named=I.new_list(named or []))
    got = {}
    nxt = S.on_eval

    def ev(I, x, e):
        for key, nd, v in (('function', f, fn), ('arguments', a, args)):
            if x is nd and key not in got:
                I.oblige('the %s evaluated in the environment of the application' % key, e is env)
                got[key] = 1
                return v
        return nxt(I, x, e) if nxt else NotImplemented
    S.on_eval = ev
    return n, got


def loop(I):
    """A list applied: the functions in turn to each element."""
    def body(I):
        S = E.Step(I, raising=True)
        env = E.env(I)
        n, m = count(I, 'elements'), count(I, 'functions')
        lst = I.new('LIST', ListP('fn', n=n, get=lambda k: I.sym(None, u=EL(k))))
        args = I.new('LIST', ListP('fn', n=m, get=lambda k: I.sym(None, u=ARG(k))))
        copies, raised, used = [], [], set()

        def deepcopy(I, a, kw):
            v = I.sym(None, 'copy')
            copies.append((a[0], v))
            return v
        I.overrides['copy.deepcopy'] = Builtin('deepcopy', deepcopy)

        def ev(I, x, e):
            I.oblige('an application is evaluated, where the loop is', isinstance(x, Obj) and x.cls.name == 'APPLY' and e is env)
            f, a, nm = x.fields['fn'], x.fields['args'], x.fields['named']
            src = [c for c in copies if c[1] is f]
            I.oblige('the function applied is a copy of its own', bool(src) and id(f) not in used)
            used.add(id(f))
            I.oblige('the function is applied to one argument', I.it(I.list_len(a)) == 1)
            I.oblige('the function is applied to no named argument', I.it(I.list_len(nm)) == 0)
            if I.choose(8) == 0:
                raised.append(1)
                I.throw('TypeError', 'yueval: message')
            g, v = I.box(src[0][0]), I.box(I.list_get(a, 0))
            return I.sym(None, u=APP(g, v))
        S.on_eval = ev
        none = lambda u: I.typ(u) == I.tag('NoneType')
        I.assume(OUT(0) == z3.Empty(SeqU))

        def unfold(i, j):
            """The definitions of the folds, at i elements and j functions."""
            last = FOLD(EL(i - 1), m)
            I.assume(z3.Implies(none(last), last == I.uNone))
            I.assume(z3.Implies(i > 0, OUT(i) == z3.Concat(OUT(i - 1), z3.If(none(last), z3.Empty(SeqU), z3.Unit(last)))))
            I.assume(z3.If(j == 0, FOLD(EL(i), j) == EL(i), z3.Implies(j > 0, FOLD(EL(i), j) == APP(ARG(j - 1), FOLD(EL(i), j - 1)))))
            I.assume(FOLD(EL(i - 1), 0) == EL(i - 1))

        def hints(I, ctx, vals, ints, views):
            out = []
            ints = dict([(b, t) for b, t in ints.items() if 'idx' in b] + [(b + '-1', t - 1) for b, t in ints.items() if 'idx' in b])
            for t in ints.values():
                for q in ints.values():
                    unfold(t, q)
                unfold(t, z3.IntVal(0))
            for a, s in seqs(I, ctx):
                for b, t in sorted(ints.items()):
                    out.append(('%s holds what the first %s elements became' % (a, b), s == OUT(t)))
            for a, v in sorted(vals.items()):
                if isinstance(v, Sym) or v is None:
                    for b, t in sorted(ints.items()):
                        for c, q in sorted(ints.items()):
                            if b != c:
                                out.append(('%s is element %s after %s functions' % (a, b, c), z3.And(I.box(v) == FOLD(EL(t), q))))
            return out
        I.hints = hints
        node, got = app(I, S, env, lst, args)
        out = S.run(node, env)
        if raised:
            I.oblige('an error of a function is passed on', out[0] == 'raise')
            return
        I.cover('done')
        ok = out[0] == 'value' and isinstance(out[1], Obj) and out[1].cls.name == 'LIST'
        I.oblige('the value of a loop is a list', ok)
        I.oblige('what the elements became and is not nothing, in order', I.seq_of(out[1]) == OUT(n))
    return I.verify('yueval.APPLY.list', body)


def index(I):
    def body(I):
        S = E.Step(I)
        env = E.env(I)
        isf = I.choose(2)
        p = I.fint('index').t
        I.assume(p >= 0)
        fn = I.new('INT', SInt(p)) if not isf else SInt(p)
        n = count(I, 'arguments')
        kind = I.choose(3)
        m = count(I, 'elements of the list')
        IN = z3.Function('inner', IntS, U)
        if kind == 0:
            I.cover('list')
            inner = I.new('LIST', ListP('fn', n=m, get=lambda k: I.sym(None, u=IN(k))))
            args = I.new('LIST', ListP('conc', items=[inner]))
            size, elem = m, IN
        else:
            if kind == 1:
                I.assume(n == 1)
                x = I.sym(['INT', 'STR', 'FLOAT', 'ATOM', 'VAR', 'APPLY', 'str', 'int', 'L_CLOSURE'], 'argument')
                args = I.new('LIST', ListP('conc', items=[x]))
                elem = lambda q: x.u
                size = z3.IntVal(1)
            else:
                I.cover('arguments')
                I.assume(n != 1)
                args = I.new('LIST', ListP('fn', n=n, get=lambda k: I.sym(None, u=ARG(k))))
                elem, size = ARG, n
        node, got = app(I, S, env, fn, args)
        out = S.run(node, env)
        I.oblige('function and arguments are evaluated, nothing else', len(S.trace) == 2 and set(got) == {'function', 'arguments'})
        I.oblige('a value', out[0] == 'value')
        v = out[1]
        if kind == 2 and not I.branch(n > 0):
            I.oblige('a number without arguments is a number', v is fn)
            return
        if not I.branch(E.TERM(I.box(args))):
            I.cover('arguments wait')
            I.oblige('a subscript that waits for its arguments remains one', v is node and node.fields['args'] is args)
            return
        if I.branch(p < size):
            I.cover('element')
            I.oblige('the element at the index', I.box(v) == elem(p))
        else:
            I.cover('beyond')
            I.oblige('nothing beyond the end', v is None)
    return I.verify('yueval.APPLY.int', body)


def embed(I):
    def body(I):
        S = E.Step(I, raising=True)
        env = E.env(I)
        a = I.sym(None, 'list')
        n = E.node(I, 'EMBED', ast=a)
        out = S.run(n, env)
        t = S.trace
        I.oblige('what is embedded is evaluated once, where it is', len(t) == 1 and t[0][0] is a and t[0][1] is env)
        if isinstance(t[0][2], str):
            I.oblige('its error is passed on', out[0] == 'raise')
            return
        I.cover('done')
        I.oblige('the value is to be embedded', out[0] == 'value' and isinstance(out[1], Obj) and out[1].cls.name == 'EMBED' and out[1].fields['ast'] is t[0][2])
    return I.verify('yueval.EMBED', body)


UNITS = [('yueval.list', elements), ('yueval.APPLY.list', loop), ('yueval.APPLY.int', index), ('yueval.EMBED', embed)]
TRUSTED = ['copy.deepcopy makes an equal value that shares nothing with the original',
           'the evaluation of one node changes no field of another node that is not part of it']
ASSUMPTIONS = ['recursion depth is unlimited', 'an index is not negative']
