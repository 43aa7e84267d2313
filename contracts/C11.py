"""C11: binding of arguments.  Steps of yueval() over the contracts of ENV (C10): the
parameters without a value are given by what unassigned() answers before and after the
binding; the argument list has any length."""
import z3
from pyvc.values import *
from . import evalmodel as E
from .C10 import same, not_found

IntS = z3.IntSort()
ARG = z3.Function('argument', IntS, U)
REST = z3.Function('remaining argument', IntS, U)
EMB = z3.Function('embedded element', IntS, U)


def lst(I, n, f, cls='LIST'):
    return I.new(cls, ListP('fn', n=n, get=lambda k: I.sym(None, u=f(k)))) if cls != 'list' else \
        Obj(I.builtin_classes['list'], ListP('fn', n=n, get=lambda k: I.sym(None, u=f(k))))


def count(I, name):
    n = I.fint(name).t
    I.assume(n >= 0)
    return n


def env_class(I, **methods):
    """ENV under the contracts of its methods."""
    a = {n: Builtin(n, f) for n, f in methods.items()}
    for n in ('__setitem__', '__delitem__', '__contains__', '__getitem__', '__eq__'):
        a[n] = Builtin(n, None)         # see the ghosts of the object
    return Class('ENV', [I.cls('ENV')], a)


def table(I, known, what):
    """A dict seen by the names in `known`: [ ( name, has, value ) ]."""
    t = Obj(I.builtin_classes['dict'])

    def row(x):
        for a, has, v in known:
            if a is x:
                return has, v
        if isinstance(x, Class):
            return SBool(z3.BoolVal(False)), None
        if isinstance(x, Obj) and x.ghost.get('other'):
            return I.fbool(what), I.sym(None, what)
        I.oblige('%s of the parameter at hand' % what, False)

    def getitem(I, o, x):
        has, v = row(x)
        if not I.branch(has.t):
            I.throw('KeyError', x)
        return v
    t.ghost.update(contains=lambda I, o, x: row(x)[0], getitem=getitem,
                   methods={'get': lambda I, o, a, kw: (row(a[0])[1] if I.branch(row(a[0])[0].t) else (a[1] if len(a) > 1 else None))})
    return t


def apply(cls, mode):
    """mode: named, args, none."""
    def unit(I):
        def body(I):
            S = E.Step(I, raising=True)
            NF = not_found(I)
            env = E.env(I)
            # the function
            first = I.new('ATOM', I.ostr('first unassigned'))
            rest = I.new('ATOM', I.ostr('next unassigned'))
            named = I.new('ATOM', I.ostr('named'))
            rest.ghost['other'] = True
            some = I.choose(2) == 1             # a parameter is unassigned
            later = I.choose(2) == 1            # one remains after the binding
            var = named if mode == 'named' else first
            isdef, dval = I.fbool('has a default'), I.sym(None, 'default')
            nextdef = I.fbool('the next one has a default')
            islate, lval = I.fbool('late'), Obj(I.builtin_classes['list'], ListP('conc', items=[(I.new('ATOM', 'l'), I.new('BOUND'))]))
            fenv = Obj(env_class(I, unassigned=lambda I, a, kw: unassigned(I)), None, {'order': I.sym(None, 'order'), 'parent': None})
            known = I.fbool('a parameter of that name')
            old = I.sym(None, 'old value')
            sets = []

            def unassigned(I):
                if sets:
                    return rest if later else NF
                return first if some else NF

            def contains(I, o, x):
                if x is named:
                    return known
                if x is first or x is rest:
                    return True
                I.oblige('the parameter looked up is the one named', False)

            def getitem(I, o, x):
                if x is named and not sets:
                    if not I.branch(known.t):
                        I.throw('KeyError', x)
                    return old
                return I.new('BOUND') if x is first or x is rest else I.sym(None, 'bound')
            fenv.ghost.update(volatile=True, contains=contains, getitem=getitem, setitem=lambda I, o, x, v: sets.append((x, v, len(S.trace))),
                              methods={'get': lambda I, o, a, kw: getitem(I, o, a[0])})
            fields = dict(l_form=I.sym(None, 'body'), env=fenv, call=None,
                          default=table(I, [(first, isdef, dval), (rest, nextdef, I.sym(None, 'next default')), (named, I.fbool('named has a default'), I.sym(None, 'x'))], 'a default'),
                          late=table(I, [(var, islate, lval)], 'late names'))
            if cls == 'M_CLOSURE':
                fields['decl'] = I.sym(None, 'decl')
            fn = E.node(I, cls, **fields)
            # the arguments
            n = count(I, 'arguments')
            if mode == 'args':
                I.assume(n >= 1)
            elif mode == 'none':
                I.assume(n == 0)
            args = lst(I, n, ARG)
            nval = I.sym(None, 'named value')
            m = count(I, 'named arguments')
            nlist = [(named, nval)] if mode == 'named' else []
            more = mode == 'named' and I.choose(2) == 1
            if more:
                nlist.append((I.new('ATOM', 'another'), I.sym(None, 'another value')))
            nargs = I.new_list(nlist)
            fnode, anode = I.sym(['VAR', 'LAMBDA', 'L_CLOSURE', 'APPLY', 'COND'], 'function'), I.new('LIST', ListP('conc', items=[]))
            n0 = E.node(I, 'APPLY', fn=fnode, args=anode, named=nargs)
            pre = {}

            def on_eval(I, x, e):
                if x is fnode and 'fn' not in pre:
                    I.oblige('the function is evaluated in the environment of the application', e is env)
                    pre['fn'] = 1
                    return fn
                if x is anode and 'args' not in pre:
                    I.oblige('the arguments are evaluated in the environment of the application', e is env)
                    pre['args'] = 1
                    return args
                return NotImplemented
            S.on_eval = on_eval
            took = []
            r = count(I, 'remaining arguments')
            left = lst(I, r, REST)
            first_val = NF if mode == 'args' and I.choose(2) else I.sym(None, 'first argument')
            if first_val is not NF:
                I.assume(z3.And(first_val.u != I.box(NF), I.typ(first_val.u) != I.tag('type')))

            def eval1(I, a, kw):
                a = list(a) + [kw[x] for x in ('args', 'env') if x in kw]
                I.oblige('the first argument is taken from the arguments of the application', a[0] is args)
                I.oblige('the first argument is evaluated in the environment of the application', a[1] is env)
                took.append(len(S.trace))
                return (first_val, args) if first_val is NF else (first_val, left)
            I.overrides['_list_eval_1'] = Builtin('_list_eval_1', eval1)
            mark = lambda: [t for t in S.trace if t[0] is not fnode and t[0] is not anode]
            out = S.run(n0, env)
            t = mark()
            I.oblige('function and arguments are evaluated', 'fn' in pre and 'args' in pre)
            if any(isinstance(x[2], str) for x in t):
                I.oblige('an error of an argument is passed on, nothing is bound', out[0] == 'raise' and not sets)
                return
            final = lambda: (out[0] == 'eval' and out[1] is fn and out[2] is env)
            again = lambda: (out[0] == 'eval' and out[1] is n0 and out[2] is env and n0.fields['fn'] is fn)
            # which value
            want_trace = []
            if mode == 'named':
                if not I.branch(known.t):
                    I.cover('no such parameter')
                    I.oblige('a named argument without such a parameter is an error', out[0] == 'raise' and not sets)
                    return
                I.cover('named')
                src = nval
            elif not some:
                I.cover('no parameter left')
                I.oblige('a function with all parameters bound is evaluated', final() and not sets and not t)
                return
            elif mode == 'none':
                if not I.branch(isdef.t):
                    I.cover('lacks arguments')
                    I.oblige('an application that lacks arguments stays a function', out == ('value', fn) and not sets and not t)
                    return
                I.cover('default')
                src = dval
            else:
                src = None
                if first_val is NF and took:
                    I.cover('argument waits')
                    I.oblige('an application that waits for an argument remains one', out == ('value', n0) and not sets and n0.fields['args'] is args
                             and n0.fields['fn'] is fn)
                    return
            I.oblige('one parameter is bound', len(sets) == 1)
            I.oblige('the parameter bound is %s' % ('the one named' if mode == 'named' else 'the first one without a value'), sets[0][0] is var)
            val = sets[0][1]
            va = False
            if mode == 'args' and not took:
                va = True
                I.cover('variable argument list')
                I.oblige('only a variable argument list takes all arguments', I.bt(I.eq(first, '__va_args__')))
            elif mode == 'args':
                I.cover('argument')
                I.oblige('a variable argument list takes all arguments', z3.Not(I.bt(I.eq(first, '__va_args__'))))
            if src is not None:
                I.oblige('the argument is evaluated first', bool(t) and t[0][0] is src and t[0][1] is env)
                base, t = t[0][2], t[1:]
            else:
                base = first_val
            if I.branch(islate.t):
                I.cover('late')
                I.oblige('an argument with late names is evaluated again', len(t) == 1)
                x, e, v = t[0]
                I.oblige('in the environment of the application', e is env)
                ok = isinstance(x, Obj) and x.cls.name == 'L_CLOSURE'
                I.oblige('as a function of the late names', ok)
                I.oblige('the value of the argument is its body', x.fields['l_form'] is base if not va else isinstance(x.fields['l_form'], Obj))
                env2 = x.fields['env']
                I.oblige('the late names are its parameters', isinstance(env2, Obj) and env2.cls.name == 'ENV')
                I.oblige('the parameter is bound to the result', val is v)
            else:
                I.oblige('the argument is evaluated once', not t)
                if va:
                    ok = isinstance(val, Obj) and val.cls.issub(I.builtin_classes['list'])
                    I.oblige('it is bound to the list of them', ok)
                    same(I, val, n, lambda q: ARG(q), 'it is bound to the list of them')
                else:
                    I.oblige('the parameter is bound to the value of the argument', val is base)
            # what remains
            if va:
                I.oblige('no argument remains', z3.Or(z3.BoolVal(out[0] == 'eval' and out[1] is fn), I.it(I.list_len(n0.fields['args'])) == 0))
            want_left = mode == 'named' and more
            if out[0] == 'eval' and out[1] is fn:
                I.cover('complete')
                I.oblige('no named argument is lost', not want_left)
                rem = n if mode == 'named' else z3.IntVal(0) if va or mode == 'none' else r
                I.oblige('no argument is lost', rem == 0)
                if later:
                    I.oblige('no default is lost', z3.Not(nextdef.t))
                I.oblige('the function is evaluated in the environment of the application', out[2] is env)
            else:
                I.cover('goes on')
                I.oblige('the application goes on', again())
                names = I.list_items(n0.fields['named']) if hasattr(I, 'list_items') else n0.fields['named'].payload.items
                I.oblige('the named arguments that remain', list(names) == nlist[1:] if mode == 'named' else not names)
                if mode == 'named':
                    same(I, n0.fields['args'], n, lambda q: ARG(q), 'the arguments that remain')
                elif va or mode == 'none':
                    I.oblige('the arguments that remain', I.it(I.list_len(n0.fields['args'])) == 0)
                else:
                    same(I, n0.fields['args'], r, lambda q: REST(q), 'the arguments that remain')
        return I.verify('yueval.APPLY.%s.%s' % (cls, mode), body)
    return unit


def list_eval_1(I):
    def body(I):
        S = E.Step(I)
        NF = not_found(I)
        fn = I.module_get(I.prog.module('pp.yugen'), '_list_eval_1')
        env = E.env(I)
        n = count(I, 'arguments')
        args = lst(I, n, ARG, 'list')
        kind = I.choose(5)
        m = count(I, 'embedded elements')
        if kind == 0:
            res = I.sym(None, 'value')
            I.assume(z3.Not(I.bt(I.isinst(res, I.cls('EMBED')))))
        else:
            if kind == 1:
                ast = lst(I, m, EMB)
            elif kind == 2:
                ast = I.sym(['VAR', 'APPLY'], 'irreducible')
            else:
                ast = I.sym(['INT', 'STR', 'FLOAT', 'L_CLOSURE', 'NoneType', 'ATOM', 'str'], 'embedded')
            res = I.new('EMBED', None, ast=ast)
        rec = []

        def ev(I, x, e):
            I.oblige('only the first argument is evaluated', I.box(x) == ARG(0))
            I.oblige('in the environment given', e is env)
            return res
        S.on_eval = ev

        def again(I, a, kw):
            a = list(a) + [kw[x] for x in ('args', 'env') if x in kw]
            same(I, a[0], n - 1, lambda q: ARG(q + 1), 'the first argument of the rest')
            I.oblige('in the environment given', a[1] is env)
            rec.append((I.sym(None, 'from the rest'), I.sym(None, 'rest of the rest')))
            return rec[-1]
        I.overrides['_list_eval_1'] = Builtin('_list_eval_1', again)
        r = I.run_func(fn, [args, env, I.fint('depth')], {})
        I.oblige('a value and the rest', isinstance(r, tuple) and len(r) == 2)
        if not I.branch(n > 0):
            I.cover('no argument')
            I.oblige('no argument', r[0] is None and I.it(I.list_len(r[1])) == 0)
            I.oblige('no argument', not S.trace)
            return
        I.oblige('the first argument is evaluated once', len(S.trace) == 1)
        if kind == 0:
            I.cover('plain')
            I.oblige('its value', r[0] is res)
            same(I, r[1], n - 1, lambda q: ARG(q + 1), 'the others remain')
        elif kind == 1:
            if I.branch(m > 0):
                I.cover('embedded list')
                I.oblige('the first embedded element', r[0] is not None and I.box(r[0]) == EMB(0))
                same(I, r[1], m - 1 + n - 1, lambda q: z3.If(q < m - 1, EMB(q + 1), ARG(q - m + 2)), 'the other elements and the others remain')
            else:
                I.cover('empty embedded list')
                I.oblige('an empty embedded list is passed over', len(rec) == 1 and r == rec[0])
        elif kind == 2:
            I.oblige('an argument that waits stays', r[0] is NF)
            same(I, r[1], n, lambda q: ARG(q), 'an argument that waits stays')
        else:
            I.oblige('the embedded value', r[0] is ast)
            same(I, r[1], n - 1, lambda q: ARG(q + 1), 'the others remain')
    return I.verify('_list_eval_1', body)


VAR, DEF, LATE, LN, RES = (z3.Function(n, *s) for n, s in (('parameter', (IntS, U)), ('default of', (IntS, U)), ('late name', (IntS, IntS, U)),
                                                           ('late names', (IntS, IntS)), ('value of default', (IntS, U))))


def lam(I):
    """A list of parameters becomes a function whose parameters have no value yet, in order."""
    def body(I):
        S = E.Step(I)
        env = E.env(I)
        n = count(I, 'parameters')
        i, j = z3.Ints('i!q j!q')
        I.sym_maps = True
        va = I.new('ATOM', '__va_args__')

        def param(k):
            v = I.sym(['ATOM'], u=VAR(k))
            I.assume(LN(k) >= 0)
            d = I.sym(None, u=DEF(k))
            late = Obj(I.builtin_classes['list'], ListP('fn', n=LN(k), get=lambda q: I.sym(None, u=LATE(k, q))))
            late.ghost['k'] = k
            return (late, v, d)
        I.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), VAR(i) != VAR(j))))
        bound = Obj(I.builtin_classes['list'], ListP('fn', n=n, get=param))
        nodef = lambda k: I.typ(DEF(k)) == I.tag('NoneType')
        form = I.sym(None, 'body')
        seen = Obj(I.builtin_classes['list'], ListP('tup', n=z3.IntVal(0), arrs=[z3.K(IntS, z3.IntVal(0))], k=0))
        I.roots = {'bound': seen}
        envs = []

        def setv(I, o, x, v):
            k = I.it(I.list_len(seen))
            I.oblige('no more parameters than there are', k < n)
            dots = I.bt(I.eq(I.sym(['ATOM'], u=VAR(k)), '...'))
            I.oblige('the parameters are in order, the variable argument list under its name', z3.Or(z3.And(z3.Not(dots), I.box(x) == VAR(k)), z3.And(dots, I.bt(I.eq(x, '__va_args__')))))
            I.oblige('a parameter has no value yet', isinstance(v, Obj) and v.cls.name == 'BOUND')
            I.list_method(seen, 'append', [0], {})

        def on_new(I, c, o):
            if c.name == 'ENV':
                o.cls = env_class(I)
                o.ghost.update(setitem=setv)
                envs.append(o)
        I.on_new = on_new

        def ev(I, x, e):
            k = I.it(I.list_len(seen))
            I.oblige('a default is evaluated where the function is defined', e is env)
            I.oblige('the defaults are evaluated in order', I.box(x) == DEF(k))
            I.oblige('a parameter with a default', z3.Not(nodef(k)))
            return I.sym(None, u=RES(k))
        S.on_eval = ev

        def map_set(I, m, x, v):
            k = I.it(I.list_len(seen))
            I.oblige('the tables of a function hold its parameters', z3.Or(I.box(x) == VAR(k), z3.And(k > 0, I.box(x) == VAR(k - 1))))
        I.map_set = map_set
        x = z3.Const('x!q', U)

        def defaults(mp, t):
            if not isinstance(mp, Obj) or not isinstance(mp.payload, DictP):
                return z3.BoolVal(False)
            if mp.payload.base is None:
                return z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < t), nodef(j))) if not mp.payload.items else z3.BoolVal(False)
            b = mp.payload.base
            return z3.And(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < t), z3.And(z3.Select(b.dom, VAR(j)) == (z3.Not(nodef(j))),
                          z3.Implies(z3.Not(nodef(j)), z3.Select(b.val, VAR(j)) == RES(j))))),
                          z3.ForAll([x], z3.Implies(z3.Select(b.dom, x), z3.Exists([j], z3.And(0 <= j, j < t, x == VAR(j))))))

        def lates(mp, t):
            if not isinstance(mp, Obj) or not isinstance(mp.payload, DictP):
                return z3.BoolVal(False)
            if mp.payload.base is None:
                return z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < t), LN(j) <= 0)) if not mp.payload.items else z3.BoolVal(False)
            b = mp.payload.base
            return z3.And(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < t), z3.Select(b.dom, VAR(j)) == (LN(j) > 0))),
                          z3.ForAll([x], z3.Implies(z3.Select(b.dom, x), z3.Exists([j], z3.And(0 <= j, j < t, x == VAR(j))))))

        def hints(I, ctx, vals, ints, views):
            k = I.it(I.list_len(seen))
            out = [('%s parameters' % a, k == t) for a, t in sorted(ints.items())]
            for a, v in sorted(ctx['fr'].vars.items()):
                if isinstance(v, Obj) and isinstance(v.payload, DictP) and not v.payload.items and v.cls.name == 'dict':
                    out.append(('%s holds the defaults so far' % a, defaults(v, k)))
                    out.append(('%s holds the late names so far' % a, lates(v, k)))
            return out
        I.hints = hints
        node = E.node(I, 'LAMBDA', bound=bound, l_form=form)
        out = S.run(node, env)
        I.cover('done')
        ok = out[0] == 'eval' and isinstance(out[1], Obj) and out[1].cls.name == 'L_CLOSURE'
        I.oblige('a list of parameters and a form make a function', ok)
        f = out[1]
        I.oblige('of that form', f.fields['l_form'] is form)
        I.oblige('evaluated where it is defined', out[2] is env)
        I.oblige('with a scope of its own', f.fields['env'] in envs and f.fields['env'] is not env)
        I.oblige('every parameter is in the scope', I.it(I.list_len(seen)) == n)
        I.oblige('the defaults are those of the parameters', defaults(f.fields['default'], n))
        I.oblige('the late names are those of the parameters', lates(f.fields['late'], n))
    return I.verify('yueval.LAMBDA', body)


def closure(I):
    """A function with parameters without a value remains one; otherwise its body is
    evaluated in its scope, within the environment of the application."""
    def body(I):
        S = E.Step(I, raising=True)
        NF = not_found(I)
        env = E.env(I)
        some = I.choose(2) == 1
        fenv = Obj(env_class(I, unassigned=lambda I, a, kw: I.new('ATOM', 'p') if some else NF), None, {'order': I.sym(None, 'order'), 'parent': E.env(I) if I.choose(2) else None})
        form = I.sym(None, 'body')
        n = E.node(I, 'L_CLOSURE', l_form=form, env=fenv, late=I.new_dict() if hasattr(I, 'new_dict') else Obj(I.builtin_classes['dict'], DictP()),
                   default=Obj(I.builtin_classes['dict'], DictP()), call=None)
        out = S.run(n, env)
        I.oblige('the scope of the function is within the environment at hand', fenv.fields['parent'] is env)
        if some:
            I.cover('parameters left')
            if any(isinstance(t[2], str) for t in S.trace):
                return
            I.oblige('a function that lacks arguments stays one', out == ('value', n))
            I.oblige('its body is reduced in its scope at most', all(t[0] is form and t[1] is fenv for t in S.trace) and len(S.trace) <= 1)
            I.oblige('its body is what it was reduced to', n.fields['l_form'] is (S.trace[0][2] if S.trace else form))
        else:
            I.cover('all bound')
            ok = out[0] == 'eval' and out[1] is form and out[2] is fenv and not S.trace
            I.oblige('the body is evaluated in the scope of the function', ok or out[0] == 'raise' and len(S.trace) == 1)
    return I.verify('yueval.L_CLOSURE', body)


UNITS = [('_list_eval_1', list_eval_1)] + [('yueval.APPLY.%s.%s' % (c, m), apply(c, m)) for c in ('L_CLOSURE', 'M_CLOSURE') for m in ('named', 'args', 'none')] + \
    [('yueval.LAMBDA', lam), ('yueval.L_CLOSURE', closure)]
TRUSTED = ['the contracts of ENV.unassigned, of binding and of look-up in a scope, proved under C10',
           'the evaluation of one node changes no field of another node that is not part of it']
ASSUMPTIONS = ['the names of the parameters of one lambda are distinct', 'recursion depth is unlimited']
