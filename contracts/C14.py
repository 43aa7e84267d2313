"""C14: the built-in list functions.  A list is given by its length and its elements,
elements are equal when they are of one class of equal values; the functions are the entries
of the table as the module builds it."""
import ast, importlib
import z3
from pyvc.values import *
from pyvc.engine import Frame
from . import evalmodel as E
from .C10 import same
from .C11 import count

IntS = z3.IntSort()
EL = z3.Function('element', IntS, U)
OF = z3.Function('class of equal values', U, IntS)


def table(I):
    """What the statements of the module put into the table, in their order: name -> expression or library."""
    m = I.prog.module('pp.yugen')
    out = {}

    def run(sts):
        for st in sts:
            if isinstance(st, ast.If):
                t = st.test
                if any(isinstance(n, ast.Name) and n.id == 'builtin' for n in ast.walk(st)):
                    if isinstance(t, ast.Compare) and isinstance(t.ops[0], (ast.NotIn, ast.In)) and ast.unparse(t.comparators[0]) == 'builtin':
                        known = ast.literal_eval(t.left) in out
                        run(st.body if known == isinstance(t.ops[0], ast.In) else st.orelse)
                        continue
                    raise Unsupported('a condition for the table of functions')
                continue
            if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                continue
            if isinstance(st, ast.Assign) and ast.unparse(st.targets[0]) == 'builtin':
                out.clear()
                if ast.unparse(st.value) not in ('dict()', '{}'):
                    raise Unsupported('the table of functions')
                continue
            if isinstance(st, ast.Assign) and isinstance(st.targets[0], ast.Subscript) and ast.unparse(st.targets[0].value) == 'builtin':
                out[ast.literal_eval(st.targets[0].slice)] = st.value
                continue
            if isinstance(st, ast.Expr) and isinstance(st.value, ast.Call) and ast.unparse(st.value.func) == 'builtin.update':
                a = st.value.args[0]
                if isinstance(a, ast.Dict):
                    for k, v in zip(a.keys, a.values):
                        out[ast.literal_eval(k)] = v
                    continue
                if isinstance(a, ast.Call) and ast.unparse(a.func) == 'vars':
                    lib = ast.unparse(a.args[0])
                    for k in vars(importlib.import_module(lib)):
                        out[k] = lib
                    continue
                raise Unsupported('the table of functions')
            if any(isinstance(n, ast.Name) and n.id == 'builtin' and isinstance(n.ctx, ast.Store) for n in ast.walk(st)):
                raise Unsupported('the table of functions')
    run(m.tree.body)
    return m, out


def function(I, name):
    m, t = table(I)
    e = t.get(name)
    if e is None:
        I.oblige('there is a function ' + name, False)
    if isinstance(e, str):
        I.oblige('the function of the table is not %s.%s' % (e, name), False)
    fr = Frame(None, m, None)
    I.frames.append(fr)
    try:
        f = I.ev(e)
    finally:
        I.frames.pop()
    if isinstance(f, Func):
        a = f.node.args
        for d in list(a.defaults) + [x for x in a.kw_defaults if x is not None]:
            if not isinstance(d, (ast.Constant, ast.UnaryOp, ast.Name)):
                raise Unsupported('a default that may outlive the call')
    return f


def given(I, what='elements'):
    I.overrides['ast.NodeVisitor'] = Class('NodeVisitor', [I.builtin_classes['object']], {}, builtin=True)
    n = count(I, what)
    I.eqU = lambda a, b: OF(a) == OF(b)
    src = I.new(['LIST', 'list'][I.choose(2)], ListP('fn', n=n, get=lambda k: I.sym(None, u=EL(k))))
    return n, src


def unchanged(I, n, src):
    same(I, src, n, lambda k: EL(k), 'the list given is as it was')


def call(I, name, *args):
    f = function(I, name)
    mark = len(I.wl())
    old = Obj(I.builtin_classes['object']).oid
    try:
        r = I.call(f, list(args), {})
    except PyRaise as e:
        I.oblige('a value, no error', False)
        raise PathEnd()
    for o, what in I.wl()[mark:]:
        if getattr(o, 'oid', 0) <= old and o not in args:
            raise Unsupported('a function changes an object that outlives the call')
    return r


def listv(I, r, n, get, what):
    I.oblige(what + ': a list', isinstance(r, Obj) and isinstance(r.payload, ListP))
    same(I, r, z3.simplify(n), get, what)


def part(name, what, size, at):
    def unit(I):
        def body(I):
            n, src = given(I)
            r = call(I, name, src)
            I.cover('done')
            listv(I, r, size(n), lambda k: EL(at(k, n)), what)
            unchanged(I, n, src)
        return I.verify('builtin.' + name, body)
    return ('builtin.' + name, unit)


def make(I):
    def body(I):
        f = function(I, 'list')
        a = f.node.args if isinstance(f, Func) else None
        if a is not None and a.vararg and not a.args and not a.kwonlyargs and not a.kwarg:
            n, src = given(I)
            r = I.run_body(f, {a.vararg.arg: src})
            I.cover('any number')
            I.oblige('a list of the preprocessor', isinstance(r, Obj) and r.cls.name == 'LIST')
            listv(I, r, n, EL, 'of the arguments, in order')
            return
        k = I.choose(4)
        xs = [I.sym(None, 'argument') for _ in range(k)]
        r = call(I, 'list', *xs)
        I.cover('%d arguments' % k)
        I.oblige('a list of the preprocessor', isinstance(r, Obj) and r.cls.name == 'LIST')
        I.oblige('of as many elements', I.it(I.list_len(r)) == k)
        for i, x in enumerate(xs):
            I.oblige('of the arguments, in order', I.box(I.list_get(r, i)) == x.u)
    return I.verify('builtin.list', body)


def position(name, highest):
    def unit(I):
        def body(I):
            n, src = given(I)
            x = I.sym(None, 'value')
            q = z3.Int('q')
            r = call(I, name, src, x)
            t = I.it(r)
            hit = lambda k: OF(EL(k)) == OF(x.u)
            none = z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < n), z3.Not(hit(q))))
            if I.branch(t == -1):
                I.cover('absent')
                I.oblige('-1 only when no element is equal', none)
            else:
                I.cover('present')
                I.oblige('an index of the list', z3.And(0 <= t, t < n))
                I.oblige('of an element equal to the value', hit(t))
                I.oblige('the %s' % ('highest' if highest else 'lowest'),
                         z3.ForAll([q], z3.Implies(z3.And(t < q, q < n) if highest else z3.And(0 <= q, q < t), z3.Not(hit(q)))))
            unchanged(I, n, src)
        return I.verify('builtin.' + name, body)
    return ('builtin.' + name, unit)


SeqU = z3.SeqSort(U)
OUT = z3.Function('first of their kind', IntS, SeqU)


def unique(I):
    def body(I):
        n, src = given(I)
        seen = z3.Function('an equal element before', IntS, z3.BoolSort())
        first = z3.Function('where', IntS, IntS)
        j, k = z3.Ints('j k')
        # seen( k ): some j < k is equal to k; where( k ) is the least
        I.assume(OUT(0) == z3.Empty(SeqU))
        I.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), z3.Implies(seen(k), z3.And(0 <= first(k), first(k) < k, OF(EL(first(k))) == OF(EL(k)))))))
        I.assume(z3.ForAll([j, k], z3.Implies(z3.And(0 <= j, j < k, k < n, OF(EL(j)) == OF(EL(k))), seen(k))))

        def hints(I, ctx, vals, ints, views):
            out = []
            for b, t in sorted(ints.items()):
                if 'idx' not in b:
                    continue
                for u in (t, t - 1):
                    I.assume(z3.Implies(z3.And(0 <= u, u < n), OUT(u + 1) == z3.If(seen(u), OUT(u), z3.Concat(OUT(u), z3.Unit(EL(u))))))
                for nm, v in sorted(vals.items()):
                    if isinstance(v, Obj) and isinstance(v.payload, ListP) and v.payload.kind in ('seq', 'conc'):
                        try:
                            out.append(('%s holds the first of their kind' % nm, I.seq_of(v) == OUT(t)))
                        except Unsupported:
                            pass
            return out
        I.hints = hints
        r = call(I, 'unique', src)
        I.cover('done')
        I.oblige('a list of the preprocessor', isinstance(r, Obj) and r.cls.name == 'LIST')
        I.oblige('the first of every kind of equal elements, in order', I.seq_of(r) == OUT(n))
        unchanged(I, n, src)
    return I.verify('builtin.unique', body)


def getslice(I):
    def body(I):
        n, src = given(I)
        got = []

        def getitem(I, o, k):
            got.append(k)
            return I.sym(None, 'part')
        src.ghost['getitem'] = getitem
        m = 1 + I.choose(3)
        bounds, want = [], []
        for i in range(m):
            kind = I.choose(3)
            if kind == 0:
                bounds.append('')
                want.append(None)
            else:
                t = I.fint('bound')
                bounds.append(t if kind == 1 else I.new('INT', t))
                want.append(bounds[-1])
        want += [None] * (3 - m)
        r = call(I, 'getslice', src, *bounds)
        I.cover('%d bounds' % m)
        if len(got) != 1 or not isinstance(got[0], Slice):
            raise Unsupported('a slice taken in parts')
        s = got[0]
        for a, b, what in ((s.start, want[0], 'start'), (s.stop, want[1], 'end'), (s.step, want[2], 'step')):
            if b is None:
                if what == 'step' and a == 1:
                    continue
                I.oblige('no %s' % what, a is None)
            else:
                I.oblige('the %s given' % what, a is not None and I.it(a) == I.it(b))
    return I.verify('builtin.getslice', body)


def library(name, lib):
    def unit(I):
        def body(I):
            m, t = table(I)
            e = t.get(name)
            if isinstance(e, ast.Name):
                e = I.module_get(m, e.id) if e.id in m.defs else 'builtins' if e.id == name else e
            if not isinstance(e, str):
                raise Unsupported('a function of its own')
            I.cover('done')
            I.oblige('the function of Python', e == lib)
        return I.verify('builtin.' + name, body)
    return ('builtin.' + name, unit)


UNITS = [
    part('car', 'the head', lambda n: z3.If(n > 0, z3.IntVal(1), z3.IntVal(0)), lambda k, n: k),
    part('cdr', 'the tail', lambda n: z3.If(n > 0, n - 1, z3.IntVal(0)), lambda k, n: k + 1),
    part('reversed', 'the elements from the last to the first', lambda n: n, lambda k, n: n - 1 - k),
    ('builtin.list', make), position('index', False), position('rindex', True),
    ('builtin.unique', unique), ('builtin.getslice', getslice),
    library('concat', 'operator'), library('contains', 'operator'), library('getitem', 'operator'), library('len', 'builtins'), library('sum', 'builtins'),
]
TRUSTED = ['equality of values is an equivalence', 'a slice of a Python list', 'len, sum and the functions of the module operator']
ASSUMPTIONS = ['the star parameter of a function holds the arguments Python passes']
