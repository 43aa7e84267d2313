"""yueval() one step at a time.

A recursive call is an entry of a ghost trace ( node, environment ) with an arbitrary
result; a fall-through to the head of the loop of yueval() is by definition the same as
a call for the new node and environment, so the outcome of a step is one of
  ('value', v)          the step returns v
  ('eval', node, env)   the step goes on with that node in that environment
  ('raise', e)
The loop is verified for one arbitrary iteration: variables that live over the back edge
other than the parameters take arbitrary values."""
import z3
from pyvc.values import *
from pyvc.engine import Engine

TERM = z3.Function('final value', U, z3.BoolSort())


class Tail(Exception):
    def __init__(self, node, env):
        self.node, self.env = node, env


class Step:
    """Ghost state of a step of yueval."""

    def __init__(self, I, raising=False):
        self.I = I
        self.trace = []                 # ( node, env, result )
        self.raising = raising
        self.on_eval = None
        self.results = None
        I.overrides['yueval'] = Builtin('yueval', self.call)
        I.overrides['_is_term'] = Builtin('_is_term', self.is_term)
        nop = Builtin('trace', lambda I, a, kw: None)
        for n in ('trace__eval_in_', 'trace__eval_out_', '_ast_pretty'):
            I.overrides[n] = nop
        I.overrides['raise_'] = Builtin('raise_', lambda I, a, kw: self.reraise(a))
        I.lib_hook = self.lib
        log = Obj(I.builtin_classes['object'])
        log.ghost['methods'] = {n: (lambda I, o, a, kw: None) for n in ('warn', 'warning', 'error', 'info', 'debug')}
        I.overrides['log'] = log
        I.overrides['ast.NodeVisitor'] = Class('NodeVisitor', [I.builtin_classes['object']], {}, builtin=True)
        I.overrides['_loc_repr'] = Builtin('_loc_repr', lambda I, a, kw: I.ostr('loc'))
        I.overrides['_loc'] = Builtin('_loc', lambda I, a, kw: I.ostr('loc'))
        for c in ('SOURCE', 'INT', 'FLOAT', 'CAPTION', 'BASE_OBJECT_LOCATED', 'BASE_CAPTION', 'BASE_OBJECT'):
            try:
                c = I.cls(c)
            except (Unsupported, KeyError):
                continue
            if c and 'loc' in c.attrs:
                c.attrs['loc'] = Builtin('loc', lambda I, a, kw: I.ostr('loc'))
        I.sym_field = self.sym_field
        I.loop_policy = self.policy
        self.fn = I.module_get(I.prog.module('pp.yugen'), 'yueval')
        self.terms = {}
        self.budget = None

    def reraise(self, a):
        c = a[0]
        raise PyRaise(c if isinstance(c, Class) else self.I.builtin_classes['Exception'], (self.I.ostr('message'),))

    def lib(self, I, key):
        if key.startswith('log.'):
            return Builtin(key, lambda I, a, kw: None)
        return None

    def sym_field(self, I, o, name):
        if name == 'loc':
            return Builtin('loc', lambda I, a, kw: I.ostr('loc'))
        if name.startswith('__'):
            return NotImplemented
        v = I.sym(None, name)
        o.fields[name] = v
        return v

    def call(self, I, a, kw):
        a = list(a) + [kw[k] for k in ('node', 'env', 'depth')[len(a):] if k in kw]
        if len(a) < 2:
            I.oblige('evaluation takes place in an environment', False)
        if a[0] is None:                # proved: yueval.None
            self.trace.append((None, a[1], None))
            return None
        if self.on_eval:
            r = self.on_eval(I, a[0], a[1])
            if r is not NotImplemented:
                self.trace.append((a[0], a[1], r))
                return r
        if self.raising and I.choose(2):
            self.trace.append((a[0], a[1], 'raise'))
            I.throw('TypeError', 'yueval: message')
        r = I.sym(None, 'value')
        I.assume(TERM(I.uNone))
        self.trace.append((a[0], a[1], r))
        return r

    def is_term(self, I, a, kw):
        v = a[0]
        if v is None:
            return True
        if isinstance(v, (bool, int, float, str, SInt, SBool, SStr, SFloat)):
            return True
        return SBool(TERM(I.box(v)))

    # the loop ------------------------------------------------------------------
    def policy(self, I, st):
        fr = I.frames[-1]
        if fr.func is None or fr.func.node is not self.fn.node or not hasattr(st, 'test') or getattr(fr, 'tail', None):
            return None
        fr.tail = st
        return self.loop

    def loop(self, I, st):
        fr = I.frames[-1]
        ps = [a.arg for a in fr.func.node.args.args]
        live = I.fninfo(fr.func)['live'].loop_heads.get(id(st))
        for v in sorted(live if live is not None else fr.vars):
            if v in ps or v not in fr.vars:
                continue
            fr.vars[v] = I.havoc(fr.vars[v], v)
        if not I.branch_truth(I.ev(st.test)):
            raise Unsupported('the loop of yueval() ends')
        try:
            I.block(st.body)
        except Cont:
            pass
        except Brk:
            return
        raise Tail(fr.vars[ps[0]], fr.vars[ps[1]])

    def run(self, node, env):
        """The outcome of one step."""
        I = self.I
        try:
            v = I.run_func(self.fn, [node, env, I.fint('depth')], {})
        except Tail as t:
            return ('eval', t.node, t.env)
        except PyRaise as e:
            return ('raise', e)
        if self.trace and self.trace[-1][2] is v and v is not None:
            n, e, _ = self.trace.pop()
            return ('eval', n, e)
        return ('value', v)


def node(I, cls, **fields):
    if any(c.name == 'BASE_OBJECT_LOCATED' for c in I.cls(cls).mro):
        fields = dict(dict(input_file=I.ostr('file'), pos=I.fint('pos')), **fields)
    return I.new(I.cls(cls), None, **fields)


def env(I, name='env'):
    outer = I.new(I.cls('ENV'), DictP({'x': 1}), parent=None, order=I.new_list(['x']))
    return I.new(I.cls('ENV'), DictP({'y': 2}), parent=outer, order=I.new_list(['y']))
