"""C10: scopes.  A chain of scopes is given by ( BINDS(k), VAL(k) ) for a name, k the
distance from the innermost scope, for any length of the chain; a single scope by the list
of its names, of any length, and their values."""
import z3
from pyvc.values import *
from . import evalmodel as E

IntS, BoolS = z3.IntSort(), z3.BoolSort()
BINDS = z3.Function('binds', IntS, BoolS)
VAL = z3.Function('value in scope', IntS, U)
KEY = z3.Function('name in scope', IntS, U)
HELD = z3.Function('value of name', U, U)


class Chain:
    """An environment of any depth, seen by one name."""

    def __init__(self, I, var):
        self.I, self.var = I, var
        I.overrides['ast.NodeVisitor'] = Class('NodeVisitor', [I.builtin_classes['object']], {}, builtin=True)
        self.K = I.fint('depth of scopes').t
        I.assume(self.K >= 1)
        self.cls = I.cls('ENV')
        self.reads, self.sets = [], []
        lf = getattr(I, 'lazy_fields', None) or {}
        I.lazy_fields = dict(lf, ENV=self.field)
        I.hints = self.hints

    def scope(self, k):
        o = Obj(self.cls)
        o.fields['#k'] = SInt(k)
        o.ghost.update(volatile=True, contains=self.contains, getitem=self.getitem, setitem=self.setitem,
                       methods={'get': self.get})
        return o

    def k(self, o):
        return self.I.it(o.fields['#k'])

    def field(self, I, o, name):
        if '#k' not in o.fields:
            return NotImplemented
        if name == 'parent':
            k = self.k(o)
            return self.scope(k + 1) if I.branch(k + 1 < self.K) else None
        raise Unsupported('field %s of a scope' % name)

    def own(self, x):
        if x is not self.var:
            raise Unsupported('another name is looked up')

    def contains(self, I, o, x):
        self.own(x)
        return SBool(BINDS(self.k(o)))

    def value(self, o):
        v = self.I.sym(None, u=VAL(self.k(o)))
        self.I.assume(self.I.typ(v.u) != self.I.tag('type'))
        self.reads.append((self.k(o), v))
        return v

    def getitem(self, I, o, x):
        self.own(x)
        if not I.branch(BINDS(self.k(o))):
            I.throw('KeyError', x)
        return self.value(o)

    def get(self, I, o, a, kw):
        self.own(a[0])
        if not I.branch(BINDS(self.k(o))):
            return a[1] if len(a) > 1 else None
        return self.value(o)

    def setitem(self, I, o, x, v):
        self.own(x)
        self.sets.append((self.k(o), v))

    def unbound(self, k):
        j = z3.Int('j!q')
        return z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < k), z3.Not(BINDS(j))))

    def hints(self, I, ctx, vals, ints, views):
        out = []
        for n, v in sorted(vals.items()):
            if v is None and n in ctx['shared']:
                out.append(('no scope binds the name', self.unbound(self.K)))
            elif isinstance(v, Obj) and '#k' in v.fields:
                out.append(('%s is a scope' % n, z3.And(0 <= self.k(v), self.k(v) < self.K)))
                out.append(('no scope before %s binds the name' % n, self.unbound(self.k(v))))
        return out

    def innermost(self, k):
        return z3.And(0 <= k, k < self.K, BINDS(k), self.unbound(k))


def name(I):
    return I.new('ATOM', 'v')


def method(I, m):
    return I.find(I.cls('ENV'), m)


def not_found(I):
    return I.module_get(I.prog.module('pp.yugen'), 'NOT_FOUND')


def lookup(I):
    def body(I):
        var = name(I)
        c = Chain(I, var)
        r = I.call(method(I, 'lookup'), [c.scope(z3.IntVal(0)), I.sym(None, 'reg'), var])
        I.oblige('looking up changes nothing', not c.sets)
        if r is not_found(I):
            I.cover('not found')
            I.oblige('not found only if no scope binds the name', c.unbound(c.K))
            return
        I.cover('found')
        ks = [k for k, v in c.reads if v is r]
        I.oblige('the result is a value bound to the name', bool(ks))
        if ks:
            I.oblige('the value is that of the innermost scope that binds the name', c.innermost(ks[-1]))
    return I.verify('ENV.lookup', body)


def update(I):
    def body(I):
        var = name(I)
        c = Chain(I, var)
        new = I.sym(None, 'new')
        r = I.call(method(I, 'update_variable'), [c.scope(z3.IntVal(0)), I.sym(None, 'reg'), var, new])
        if not c.sets:
            I.cover('not found')
            I.oblige('nothing is updated only if no scope binds the name', c.unbound(c.K))
            I.oblige('it is told', r is not_found(I))
            return
        I.cover('updated')
        I.oblige('one binding is updated', len(c.sets) == 1)
        I.oblige('it gets the new value', c.sets[0][1] is new)
        I.oblige('it is the innermost one', c.innermost(c.sets[0][0]))
    return I.verify('ENV.update_variable', body)


class Scope:
    """One scope with any number of names."""

    def __init__(self, I):
        self.I = I
        I.overrides['ast.NodeVisitor'] = Class('NodeVisitor', [I.builtin_classes['object']], {}, builtin=True)
        self.n = I.fint('names').t
        I.assume(self.n >= 0)
        i, j = z3.Ints('i!q j!q')
        self.cls = I.cls('ENV')
        self.order = Obj(I.builtin_classes['list'], ListP('fn', n=self.n, get=self.key))
        self.log = []
        self.o = Obj(self.cls, None, {'order': self.order, 'parent': None})
        self.o.ghost.update(contains=self.contains, getitem=self.getitem, setitem=self.setitem, delitem=self.delitem,
                            methods={'get': lambda I, o, a, kw: self.getitem(I, o, a[0])})

    def key(self, k):
        I = self.I
        v = I.sym(None, u=KEY(k))
        v.ghost_k = k
        return v

    def isin(self, x):
        """Term: the name is one of the scope."""
        q = z3.Int('q!q')
        return z3.Exists([q], z3.And(0 <= q, q < self.n, self.I.elem_eq(self.order0, q, x)))

    def contains(self, I, o, x):
        return I.contains(Obj(I.builtin_classes['list'], self.order.payload if o.fields.get('order') is self.order else o.fields['order'].payload), x)

    def getitem(self, I, o, x):
        return I.sym(None, u=HELD(I.box(x)))

    def setitem(self, I, o, x, v):
        self.log.append(('set', x, v))

    def delitem(self, I, o, x):
        self.log.append(('del', x))


def same(I, lst, n, get, what):
    """lst holds get(0) .. get(n-1), terms of U."""
    p = lst.payload if isinstance(lst, Obj) else None
    I.oblige(what, isinstance(p, ListP))
    I.oblige(what, I.it(I.list_len(lst)) == n)
    q = I.fint('position').t
    if I.branch(z3.And(0 <= q, q < n)):
        v = I.list_get(lst, SInt(q))
        I.oblige(what, I.box(v) == get(q))


def setitem(I):
    """Binding a name puts it at the end of the order; the order of the others is kept."""
    def body(I):
        s = Scope(I)
        x, v = I.sym(None, 'the name'), I.sym(None, 'value')
        was = I.fn_find(s.order.payload, x)
        if was is not None:             # the names are in the order once each
            I.fn_none(s.order.payload, x, was + 1, s.n)
        I.call(method(I, '__setitem__'), [s.o, x, v])
        I.oblige('the name is bound to the value', [e for e in s.log if e[0] == 'set'] == [('set', x, v)] and len(s.log) == 1)
        if was is None:
            I.cover('new name')
            same(I, s.o.fields['order'], s.n + 1, lambda q: z3.If(q == s.n, I.box(x), KEY(q)), 'the name is the last one, the others stay')
        else:
            I.cover('known name')
            r = I.list_len(s.o.fields['order'])
            same(I, s.o.fields['order'], s.n, lambda q: z3.If(q == s.n - 1, I.box(x), z3.If(q < was, KEY(q), KEY(q + 1))),
                 'the name is the last one, the others stay')
    return I.verify('ENV.__setitem__', body)


def delitem(I):
    def body(I):
        s = Scope(I)
        x = I.sym(None, 'the name')
        was = I.fn_find(s.order.payload, x)
        if was is None:
            return
        I.fn_none(s.order.payload, x, was + 1, s.n)
        I.call(method(I, '__delitem__'), [s.o, x])
        I.cover('deleted')
        I.oblige('the name is removed', s.log == [('del', x)])
        same(I, s.o.fields['order'], s.n - 1, lambda q: z3.If(q < was, KEY(q), KEY(q + 1)), 'the name is removed from the order, the others stay')
    return I.verify('ENV.__delitem__', body)


def unassigned(I):
    def body(I):
        s = Scope(I)
        isbound = lambda k: I.bt(I.isinst(I.sym(None, u=HELD(KEY(k))), I.cls('BOUND')))
        j = z3.Int('j!q')
        none = lambda t: z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < t), z3.Not(isbound(j))))
        I.hints = lambda I, ctx, vals, ints, views: [('no parameter before %s is unassigned' % n, none(t)) for n, t in sorted(ints.items())]
        r = I.call(method(I, 'unassigned'), [s.o])
        if r is not_found(I):
            I.cover('none')
            I.oblige('none only if all parameters are assigned', none(s.n))
            return
        I.cover('found')
        k = getattr(r, 'ghost_k', None)
        I.oblige('the result is a parameter', k is not None)
        if k is not None:
            I.oblige('it is the first one that is unassigned', z3.And(0 <= k, k < s.n, isbound(k), none(k)))
    return I.verify('ENV.unassigned', body)


def xlocal(I):
    def body(I):
        s = Scope(I)
        seen = Obj(I.builtin_classes['list'], ListP('tup', n=z3.IntVal(0), arrs=[z3.K(IntS, z3.IntVal(0))], k=0))
        I.roots = {'seen': seen}
        I.hints = lambda I, ctx, vals, ints, views: [('%s names are enumerated' % n, t == I.it(I.list_len(seen))) for n, t in sorted(ints.items())]

        def on_yield(I, v):
            k = I.it(I.list_len(seen))
            I.oblige('a name and its value', isinstance(v, tuple) and len(v) == 2)
            I.oblige('no more names than there are', k < s.n)
            I.oblige('the names come in their order', I.box(v[0]) == KEY(k))
            I.oblige('each with its value', I.box(v[1]) == HELD(KEY(k)))
            I.list_method(seen, 'append', [0], {})
        I.run_func(method(I, 'xlocal'), [s.o], {}, on_yield)
        I.cover('all')
        I.oblige('every name is enumerated', I.it(I.list_len(seen)) == s.n)
        I.oblige('the scope is not changed', not s.log)
    return I.verify('ENV.xlocal', body)


def var(I):
    """The step of a variable: the value of the innermost binding; a built-in function only
    if there is none."""
    def body(I):
        S = E.Step(I)
        atom = I.new('ATOM', I.ostr('name'))
        k = I.choose(3)
        reg = I.new_list([]) if k == 0 else I.new('LATE_BOUND') if k == 1 else I.new_list([I.new('ATOM', 'r')])
        env = E.env(I)
        n = E.node(I, 'VAR', reg=reg, atom=atom)
        NF = not_found(I)
        found = I.choose(2) == 1
        val = I.sym(None, 'bound value') if found else NF
        if found:
            I.assume(z3.And(I.typ(val.u) != I.tag('type'), val.u != I.box(NF)))
        looked, copied = [], []

        def look(I, a, kw):
            I.oblige('the name is looked up in the environment at hand', a[0] is env and a[2] is atom)
            looked.append(1)
            return val
        env.fields['lookup'] = Builtin('lookup', lambda I, a, kw: look(I, [env] + list(a) + [kw[x] for x in ('reg', 'var') if x in kw], {}))

        def deepcopy(I, a, kw):
            v = I.sym(None, 'copy')
            copied.append((a[0], v))
            return v
        I.overrides['copy.deepcopy'] = Builtin('deepcopy', deepcopy)
        isb, iss = I.fbool('builtin'), I.fbool('builtin special')

        def table(name, has):
            t = Obj(I.builtin_classes['dict'])
            v = I.sym(None, name)
            t.ghost.update(contains=lambda I, o, x: has if x is atom else I.fbool('in'), value=v,
                           getitem=lambda I, o, x: v if x is atom and I.branch(has.t) else I.throw('KeyError', x),
                           methods={'get': lambda I, o, a, kw: v if I.branch(has.t) else (a[1] if len(a) > 1 else None)})
            return t
        tb, ts = table('builtin', isb), table('builtin_special', iss)
        I.overrides['builtin'], I.overrides['builtin_special'] = tb, ts
        out = S.run(n, env)
        I.oblige('the name is looked up', bool(looked))
        I.oblige('nothing is evaluated', not S.trace and out[0] != 'eval')
        if found:
            I.cover('bound')
            if I.branch(I.bt(I.isinst(val, I.cls('BOUND')))):
                I.cover('parameter without a value')
                I.oblige('the variable waits for the value of the parameter', out == ('value', n) and n.fields['atom'] is atom and n.fields['reg'] is reg)
            else:
                I.oblige('the value of the variable is a copy of the bound value', out[0] == 'value' and (out[1] is None and I.must(I.typ(val.u) == I.tag('NoneType'))
                         or any(c[0] is val and c[1] is out[1] for c in copied)))
            return
        I.cover('not bound')
        if k == 1:
            I.oblige('a late bound variable waits', out == ('value', n))
            return
        if k == 2:
            I.oblige('a variable of a region that is not bound is an error', out[0] == 'raise')
            return
        r = out[1] if out[0] == 'value' else None
        I.oblige('a value', out[0] == 'value')
        if I.branch(isb.t):
            I.cover('built-in function')
            I.oblige('the built-in function', isinstance(r, Obj) and r.cls.name == 'BUILTIN' and r.fields['atom'] is atom and r.fields['fn'] is tb.ghost['value'])
        elif I.branch(iss.t):
            I.oblige('the special built-in function', isinstance(r, Obj) and r.cls.name == 'BUILTIN_SPECIAL' and r.fields['atom'] is atom and r.fields['fn'] is ts.ghost['value'])
        else:
            I.cover('unbound')
            I.oblige('the name itself, or a variable that waits', r is atom or r is n)
    return I.verify('yueval.VAR', body)


def emit(I):
    """The step of an iterator."""
    def body(I):
        S = E.Step(I, raising=True)
        atom = I.new('ATOM', I.ostr('name'))
        reg = I.new_list([])
        env = E.env(I)
        var = E.node(I, 'VAR', reg=reg, atom=atom)
        fn = I.sym(None, 'function') if I.choose(2) else None
        if fn is not None:
            I.assume(I.bt(I.truth(fn)))
        n = E.node(I, 'EMIT', var=var, ast=fn)
        kind = I.choose(4)
        m = I.fint('elements').t
        EL = z3.Function('element', IntS, U)
        if kind == 0:
            val = not_found(I)
        elif kind == 1:
            I.assume(m >= 0)
            val = I.new('LIST', ListP('fn', n=m, get=lambda k: I.sym(None, u=EL(k))))
        elif kind == 2:
            val = I.new('BOUND')
        else:
            val = I.sym(['INT', 'FLOAT', 'STR', 'NoneType', 'L_CLOSURE', 'APPLY', 'ATOM'], 'bound value')
            I.assume(val.u != I.box(not_found(I)))
        updates = []

        def look(I, a, kw):
            I.oblige('the name is looked up in the environment at hand', a[1] is atom)
            return val

        def upd(I, a, kw):
            a = list(a) + [kw[x] for x in ('reg', 'var', 'value')[len(a):] if x in kw]
            I.oblige('the variable updated is that of the iterator', a[1] is atom and a[0] is reg)
            updates.append((a[2], len(S.trace)))
            return atom
        env.fields['lookup'] = Builtin('lookup', look)
        env.fields['update_variable'] = Builtin('update_variable', upd)
        out = S.run(n, env)
        if kind == 0:
            I.cover('undefined')
            I.oblige('an undefined variable is an error', out[0] == 'raise' and not updates and not S.trace)
            return
        if kind == 2:
            I.cover('parameter')
            I.oblige('the iterator waits for the value of the parameter', out == ('value', n) and not updates and not S.trace)
            return
        if fn is None:
            I.oblige('without a function the variable is not updated', not updates and not S.trace)
        else:
            ok = len(S.trace) == 1
            I.oblige('the function is applied once', ok)
            x, e, v = S.trace[0]
            I.oblige('in the environment at hand', e is env)
            I.oblige('the function is applied to the value of the variable', isinstance(x, Obj) and x.cls.name == 'APPLY' and x.fields['fn'] is fn)
            arg = x.fields['args']
            I.oblige('the function is applied to the value of the variable', isinstance(arg, Obj) and I.branch(I.it(I.list_len(arg)) == 1)
                     and I.list_get(arg, 0) is val)
            if isinstance(v, str):
                I.oblige('an error of the function is passed on', out[0] == 'raise' and not updates)
                return
            I.oblige('the variable is updated with the result, once', len(updates) == 1 and updates[0][0] is v)
        I.oblige('the iterator yields a value', out[0] == 'value')
        if kind == 3:
            I.cover('value')
            I.oblige('the value is the one before the update', out[1] is val)
            return
        I.cover('list')
        r = out[1]
        if I.branch(m > 0):
            I.oblige('the value is the first element', r is not None and not isinstance(r, Obj) and I.box(r) == EL(0))
            same(I, val, m - 1, lambda q: EL(q + 1), 'it is removed from the list')
        else:
            I.oblige('there is no value', r is None)
            same(I, val, m, lambda q: EL(q), 'the list stays empty')
    return I.verify('yueval.EMIT', body)


def eval_local(I):
    """Every name is evaluated once, in order, and bound to the result in its place; the
    result tells whether all are final."""
    def body(I):
        S = E.Step(I)
        s = Scope(I)
        env = E.env(I)
        RES = z3.Function('result', IntS, U)
        n = [0]
        seen = Obj(I.builtin_classes['list'], ListP('tup', n=z3.IntVal(0), arrs=[z3.K(IntS, z3.IntVal(0))], k=0))
        kept = Obj(I.builtin_classes['list'], ListP('tup', n=z3.IntVal(0), arrs=[z3.K(IntS, z3.IntVal(0))], k=0))
        I.roots = {'evaluated': seen, 'kept': kept}

        def ev(I, node, e):
            k = I.it(I.list_len(seen))
            I.oblige('the value of the name is evaluated in the environment given', e is env)
            I.oblige('no more names than there are', k < s.n)
            I.oblige('the names are evaluated in order', I.box(node) == HELD(KEY(k)))
            I.list_method(seen, 'append', [0], {})
            return I.sym(None, u=RES(k))
        S.on_eval = ev

        def setv(I, o, x, v):
            k = I.it(I.list_len(kept))
            I.oblige('a name is bound after its evaluation', k + 1 == I.it(I.list_len(seen)))
            I.oblige('the name is bound to its result', z3.And(I.box(x) == KEY(k), I.box(v) == RES(k)))
            I.list_method(kept, 'append', [0], {})
        s.o.ghost['setitem'] = setv
        j = z3.Int('j!q')
        allf = lambda t: z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < t), E.TERM(RES(j))))

        def hints(I, ctx, vals, ints, views):
            ns, nk = I.it(I.list_len(seen)), I.it(I.list_len(kept))
            out = [('as many bound as evaluated', ns == nk)]
            for n, t in sorted(ints.items()):
                out.append(('%s evaluated' % n, ns == t))
            for n, v in sorted(vals.items()):
                if isinstance(v, (bool, SBool)):
                    out.append(('%s: all so far are final' % n, I.bt(v) == allf(ns)))
            return out
        I.hints = hints
        I.assume(E.TERM(I.uNone))
        r = I.call(method(I, 'eval_local'), [s.o, env, I.fint('depth')])
        I.cover('done')
        I.oblige('every name is evaluated', I.it(I.list_len(seen)) == s.n)
        I.oblige('every name is bound to its result', I.it(I.list_len(kept)) == s.n)
        I.oblige('the result tells whether all values are final', I.bt(I.truth(r)) == allf(s.n))
        I.oblige('the order of the names is kept', s.o.fields['order'] is s.order and z3.is_true(z3.simplify(I.it(I.list_len(s.order)) == s.n)))
    return I.verify('ENV.eval_local', body)


UNITS = [('ENV.lookup', lookup), ('ENV.update_variable', update), ('ENV.__setitem__', setitem), ('ENV.__delitem__', delitem), ('ENV.unassigned', unassigned),
         ('ENV.xlocal', xlocal), ('ENV.eval_local', eval_local), ('yueval.VAR', var), ('yueval.EMIT', emit)]
TRUSTED = ['copy.deepcopy makes an equal value that shares nothing with the original',
           'equality of names is an equivalence (str.__eq__)']
ASSUMPTIONS = ['the chain of scopes ends']
