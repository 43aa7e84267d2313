"""C12: a step of yueval() on a conditional, for any condition and any alternatives: the
condition is evaluated first and once; if its value is final, exactly the chosen
alternative is evaluated, in the same environment, and nothing else."""
import z3
from pyvc.values import *
from . import evalmodel as E
from . import parser as P


def cond(cls):
    def unit(I):
        def body(I):
            S = E.Step(I, raising=True)
            c, a, b = I.sym(None, 'cond'), I.sym(None, 'leg_1'), (I.sym(None, 'leg_0') if I.choose(2) else None)
            env = E.env(I)
            n = E.node(I, cls, cond=c, leg_1=a, leg_0=b)
            out = S.run(n, env)
            t = S.trace
            I.oblige('the condition is evaluated', bool(t) or out[0] == 'eval')
            if not t:
                I.oblige('the condition is evaluated first, in the environment of the conditional', False)
            I.oblige('the condition is evaluated first, in the environment of the conditional', t[0][0] is c and t[0][1] is env)
            v = t[0][2]
            if isinstance(v, str):
                I.cover('failed condition')
                I.oblige('nothing is evaluated after a condition that failed', len(t) == 1 and out[0] == 'raise')
                return
            if I.branch(E.TERM(v.u)):
                I.cover('final')
                # the condition of the node is now its value
                path = [(x[0], x[1]) for x in t[1:]]
                if out[0] == 'eval':
                    path.append((out[1], out[2]))
                truth = I.branch(I.bt(I.truth(v)))
                leg, other = (a, b) if truth else (b, a)
                raised = any(isinstance(x[2], str) for x in t[1:])
                seen = 0
                for x, e in path:
                    if x is leg and seen == 0:
                        seen += 1
                        I.oblige('the alternative is evaluated in the environment of the conditional', e is env)
                        continue
                    again = any(x is y[2] for y in t)
                    I.oblige('nothing but the chosen alternative is evaluated', again or x is None)
                if leg is None:
                    I.oblige('without the alternative there is no value', out[0] == 'value' and out[1] is None
                             or out[0] == 'eval' and (out[1] is None or any(out[1] is y[2] for y in t)))
                else:
                    I.oblige('the chosen alternative is evaluated', seen == 1)
                    I.oblige('the value is that of the chosen alternative', raised and out[0] == 'raise' or out[0] == 'eval' and
                             (out[1] is leg or any(out[1] is y[2] and y[0] is leg for y in t)))
            else:
                I.cover('not final')
                if out[0] == 'raise':
                    return
                I.oblige('a conditional that cannot be decided remains one', out[0] == 'value' and isinstance(out[1], Obj) and
                         out[1].cls.name in ('COND', 'COND_CLOSURE'))
                if cls == 'COND':
                    r = out[1]
                    I.oblige('its alternatives are not evaluated', len(t) == 1)
                    I.oblige('it keeps the value of the condition and its alternatives', r.fields['cond'] is v and r.fields['leg_1'] is a and r.fields['leg_0'] is b)
                else:
                    r = out[1]
                    get = lambda x: {id(y[0]): y[2] for y in t}.get(id(x), x)
                    I.oblige('it keeps the value of the condition and its alternatives', r.fields['cond'] is v and r.fields['leg_1'] is get(a)
                             and (r.fields['leg_0'] is get(b) or b is None))
        return I.verify('yueval.' + cls, body)
    return unit


def none(I):
    def body(I):
        S = E.Step(I)
        out = S.run(None, E.env(I))
        I.cover('nothing')
        I.oblige('nothing has no value', out == ('value', None) and not S.trace)
    return I.verify('yueval.None', body)


def is_term(I):
    """_is_term over its own contract: nothing, texts, numbers and delayed forms are final,
    a list is if all its elements are, an expansion if what it holds is."""
    def body(I):
        fn = I.module_get(I.prog.module('pp.yugen'), '_is_term')
        asked = []

        def rec(I, a, kw):
            asked.append(a[0])
            return SBool(E.TERM(I.box(a[0])))
        I.overrides['_is_term'] = Builtin('_is_term', rec)
        kind = I.choose(5)
        n = I.fint('n').t
        I.assume(n >= 0)
        ELEM = z3.Function('element', z3.IntSort(), U)
        k = z3.Int('k!q')
        if kind == 0:
            I.cover('list')
            x = I.new('LIST', ListP('fn', n=n, get=lambda k: I.sym(None, u=ELEM(k))))
            want = z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), E.TERM(ELEM(k))))
        elif kind == 1:
            I.cover('expansion')
            a = I.sym(None, 'ast')
            x = I.new('TRIM', None, ast=a, indent='')
            want = E.TERM(a.u)
        elif kind == 2:
            x, want = None, z3.BoolVal(True)
        elif kind == 3:
            I.cover('atomic')
            x = I.sym(['ATOM', 'STR', 'PLAIN', 'REMARK', 'str', 'INT', 'FLOAT', 'int', 'float', 'bool', 'LAZY'], 'x')
            want = z3.BoolVal(True)
        else:
            I.cover('form')
            x = I.sym(['VAR', 'APPLY', 'LAMBDA', 'L_CLOSURE', 'M_CLOSURE', 'COND', 'COND_CLOSURE', 'SET', 'LET', 'SET_CLOSURE', 'MACRO', 'EMIT', 'INFIX',
                       'INFIX_CLOSURE', 'BUILTIN', 'BUILTIN_SPECIAL', 'EMBED', 'TEXT', 'EVAL', 'SKIP', 'BOUND', 'COMMENT', 'ENV'], 'x')
            want = z3.BoolVal(False)
        I.hints = lambda I, ctx, vals, ints, views: [('the first %s are final' % v, z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < t, k < n), E.TERM(ELEM(k)))))
                                                     for v, t in sorted(ints.items())]
        r = I.run_func(fn, [x], {})
        I.oblige('it tells whether a value is final', I.bt(I.truth(r)) == want)
    return I.verify('_is_term', body)


def form(I):
    """leg ? cond | form: the parts of the text go to their places."""
    calls = []

    class Rec(P.PS):
        def apply(self, I, args, fn):
            r = P.PS.apply(self, I, args, fn)
            I.ghost['parts'].append((self.name, r[1]))
            return r

    def extra(I, a, ret):
        parts = [x for x in I.ghost['parts'] if x[1] is not None]
        formers = [x[1] for x in parts if x[0] == 'ps_former']
        forms = [x[1] for x in parts if x[0] == 'ps_form']
        leg = ret[1]
        if len(formers) == 2:
            I.cover('conditional')
            ok = isinstance(leg, Obj) and leg.cls.name == 'COND'
            I.oblige('two parts make a conditional', ok)
            if ok:
                I.oblige('the part before the mark is the first alternative', leg.fields['leg_1'] is formers[0])
                I.oblige('the part after the mark is the condition', leg.fields['cond'] is formers[1])
                I.oblige('the part after the bar is the second alternative', leg.fields['leg_0'] is (forms[0] if forms else None))
        elif len(formers) == 1:
            I.oblige('one part stands for itself', leg is formers[0])
    P.setup(I)
    for n in ('ps_former', 'ps_form'):
        I.contracts[n] = Rec(n)
    m = I.prog.module('pp.yugen')

    def run(I):
        P.setup(I)
        for n in ('ps_former', 'ps_form'):
            I.contracts[n] = Rec(n)
        I.ghost['parts'] = []
        a = P.start(I)
        I.ghost['fn'], I.ghost['a0'] = 'ps_form', a
        try:
            ret = I.run_func(I.module_get(m, 'ps_form'), [P.source(I, a), I.fint('depth')], {})
        except PyRaise as e:
            return
        extra(I, a, ret)
    return I.verify('ps_form', run)


UNITS = [('yueval.COND', cond('COND')), ('yueval.COND_CLOSURE', cond('COND_CLOSURE')), ('yueval.None', none), ('_is_term', is_term), ('ps_form', form)]
TRUSTED = ['the evaluation of one node changes no field of another node that is not part of it']
ASSUMPTIONS = ['recursion depth is unlimited']
