"""Forward symbolic execution of real Python source, path by path, with
contracts at calls and invariants at loops.  See DESIGN.md for what is trusted.
"""
import ast
import builtins
import contextlib
import os
import time
import itertools
import subprocess
import tempfile
import z3
import z3.z3util

from .values import *

z3.set_param('auto_config', True)


class Restart(Exception):
    """The loop annotation under construction changed: verify again."""


# ---------------------------------------------------------------------------
# program model
# ---------------------------------------------------------------------------
class Module:
    def __init__(self, name, path, prog):
        self.name, self.path, self.prog = name, path, prog
        with open(path, encoding='utf-8') as f:
            self.src = f.read()
        self.tree = ast.parse(self.src)
        self.defs = {}
        self.stars = []
        self._index(self.tree.body)
        self.cache = {}

    def _index(self, body):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                self.defs.setdefault(st.name, []).append(st)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.defs.setdefault(t.id, []).append(st)
            elif isinstance(st, ast.Import):
                for a in st.names:
                    self.defs.setdefault((a.asname or a.name).split('.')[0], []).append(st)
            elif isinstance(st, ast.ImportFrom):
                for a in st.names:
                    if a.name == '*':
                        self.stars.append(st)
                    else:
                        self.defs.setdefault(a.asname or a.name, []).append(st)
            elif isinstance(st, ast.If):
                pass
            elif isinstance(st, ast.Try):
                self._index(st.body)


class Program:
    """Reads the modules of the repository under test."""

    def __init__(self, root):
        self.root = root
        self.mods = {}

    def module(self, name):
        if name not in self.mods:
            self.mods[name] = Module(name, os.path.join(self.root, name.replace('.', '/') + '.py'), self)
        return self.mods[name]

    def func_node(self, modname, qual):
        """FunctionDef of e.g. 'SOURCE.loc' or 'ps_gap'."""
        m = self.module(modname)
        body = m.tree.body
        node = None
        for part in qual.split('.'):
            node = None
            for st in body:
                if isinstance(st, (ast.FunctionDef, ast.ClassDef)) and st.name == part:
                    node = st
            if node is None:
                raise Unsupported('no definition of %s in %s' % (qual, modname))
            body = node.body
        return node


class Frame:
    def __init__(self, func, module, parent):
        self.func, self.module, self.parent = func, module, parent
        self.vars = {}
        self.locals = set()
        self.loopno = None
        self.genspec = None
        self.depth = 0


def assigned_names(nodes):
    """Names bound by the statements (not in nested functions)."""
    out = set()

    class V(ast.NodeVisitor):
        def visit_FunctionDef(self, n):
            out.add(n.name)

        def visit_Lambda(self, n):
            pass

        def visit_ClassDef(self, n):
            out.add(n.name)

        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)

        def visit_ListComp(self, n):
            pass
        visit_SetComp = visit_GeneratorExp = visit_DictComp = visit_ListComp

        def visit_ExceptHandler(self, n):
            if n.name:
                out.add(n.name)
            self.generic_visit(n)

        def visit_Import(self, n):
            for a in n.names:
                out.add((a.asname or a.name).split('.')[0])

        def visit_ImportFrom(self, n):
            for a in n.names:
                out.add(a.asname or a.name)
    v = V()
    for n in nodes:
        v.visit(n)
    return out


def read_names(node):
    out = set()
    for n in ast.walk(node):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            out.add(n.id)
    return out


class Liveness:
    """Backward liveness of local names over structured statements."""

    def __init__(self, fn):
        self.loop_heads = {}
        self.fn = fn
        # names used by nested functions are live everywhere
        self.always = set()
        for n in ast.walk(fn):
            if n is not fn and isinstance(n, (ast.FunctionDef, ast.Lambda)):
                self.always |= read_names(n)
        body = fn.body if isinstance(fn.body, list) else [ast.Expr(fn.body)]
        self.block(body, set(), None, None, set())

    def block(self, stmts, out, brk, cont, exc):
        live = set(out)
        for st in reversed(stmts):
            live = self.stmt(st, live, brk, cont, exc)
        return live

    def use(self, live, *nodes):
        for n in nodes:
            if n is not None:
                live = live | read_names(n)
        return live

    def kill(self, target, live):
        if isinstance(target, ast.Name):
            return live - {target.id}
        if isinstance(target, (ast.Tuple, ast.List)):
            for e in target.elts:
                live = self.kill(e, live)
            return live
        if isinstance(target, ast.Starred):
            return self.kill(target.value, live)
        return live | read_names(target) | {n.id for n in ast.walk(target) if isinstance(n, ast.Name)}

    def stmt(self, st, out, brk, cont, exc):
        live = set(out)
        if isinstance(st, ast.Assign):
            for t in st.targets:
                live = self.kill(t, live)
            return self.use(live, st.value) | exc
        if isinstance(st, ast.AugAssign):
            live = self.use(live, st.value, st.target)
            if isinstance(st.target, ast.Name):
                live = live | {st.target.id}
            return live | exc
        if isinstance(st, ast.If):
            a = self.block(st.body, out, brk, cont, exc)
            b = self.block(st.orelse, out, brk, cont, exc)
            return self.use(a | b, st.test)
        if isinstance(st, ast.While):
            head = self.use(set(out), st.test)
            if isinstance(st.test, ast.Constant) and st.test.value:
                head = set()
            after = set(out)
            for _ in range(20):
                body = self.block(st.body, head, after, head, exc)
                new = self.use(body | (set() if isinstance(st.test, ast.Constant) and st.test.value
                                       else self.block(st.orelse, out, brk, cont, exc)), st.test)
                if new == head:
                    break
                head = new
            self.loop_heads[id(st)] = head | self.always | exc
            return head | exc
        if isinstance(st, ast.For):
            after = set(out)
            head = set(out)
            for _ in range(20):
                body = self.kill(st.target, self.block(st.body, head, after, head, exc))
                new = body | self.block(st.orelse, out, brk, cont, exc)
                if new == head:
                    break
                head = new
            self.loop_heads[id(st)] = head | self.always | exc
            return self.use(head, st.iter) | exc
        if isinstance(st, ast.Return):
            return self.use(set(), st.value) | exc
        if isinstance(st, ast.Raise):
            return self.use(set(), st.exc, st.cause) | exc
        if isinstance(st, ast.Break):
            return set(brk or ())
        if isinstance(st, ast.Continue):
            return set(cont or ())
        if isinstance(st, ast.Try):
            fin = self.block(st.finalbody, out, brk, cont, exc)
            hl = set()
            for h in st.handlers:
                hl |= self.block(h.body, fin, brk, cont, exc | fin)
            orelse = self.block(st.orelse, fin, brk, cont, exc | fin)
            return self.block(st.body, orelse, brk, cont, exc | hl | (fin if st.finalbody else set())) | hl
        if isinstance(st, ast.With):
            live = self.block(st.body, out, brk, cont, exc)
            for it in st.items:
                if it.optional_vars is not None:
                    live = self.kill(it.optional_vars, live)
                live = self.use(live, it.context_expr)
            return live
        if isinstance(st, ast.FunctionDef):
            return (live - {st.name}) | read_names(st)
        if isinstance(st, ast.Delete):
            for t in st.targets:
                live = self.use(live, t)
                if not isinstance(t, ast.Name):
                    live |= {n.id for n in ast.walk(t) if isinstance(n, ast.Name)}
            return live
        if isinstance(st, (ast.Import, ast.ImportFrom)):
            return live - assigned_names([st])
        return live | {n.id for n in ast.walk(st) if isinstance(n, ast.Name)} | exc


# ---------------------------------------------------------------------------
QUANT = {}      # id -> (term kept alive, does it contain a quantifier)


def has_quant(t):
    k = t.get_id()
    if k not in QUANT:
        if len(QUANT) > 100000:
            QUANT.clear()
        QUANT[k] = (t, has_quant_(t))
    return QUANT[k][1]


HAS_QUANT = z3.Probe('has-quantifiers')


def has_quant_(t):
    g = z3.Goal()
    g.add(t)
    return HAS_QUANT(g) != 0


class Obligation:
    __slots__ = ('func', 'label', 'status', 'time', 'backend', 'trail', 'model', 'smt', 'where', 'cut')

    def __init__(self, func, label):
        self.func, self.label = func, label
        self.status, self.time, self.backend, self.model, self.smt, self.where = None, 0.0, None, None, None, None
        self.cut, self.trail = 1, ()


class LoopInfo:
    def __init__(self):
        self.sigs = []          # known signatures of the loop head
        self.dropped = {}       # sig -> set of dropped candidate names
        self.vdropped = {}      # sig -> dropped variants
        self.named = {}         # sig -> candidates stated at every arrival so far
        self.used = {}          # sig -> candidates assumed at the head
        self.mods = {}          # access path -> kind
        self.failed = {}


TRACING = ('echo__ps_', 'echo__eval_')        # they print a trace and call the function


class Engine:
    def __init__(self, prog, budget=120.0, query_ms=8000):
        self.prog = prog
        self.classes = {}
        self.builtin_classes = {}
        self.contracts = {}          # function qualname -> contract (for callers)
        self.overrides = {}          # (module, name) or name -> value
        self.budget = budget
        self.query_ms = query_ms
        self.obligations = []
        self.assumptions = set()
        self.bodies = {}             # (unit, loop) -> its body is reached for an arbitrary iteration
        self.stats = {'queries': 0, 'solver_s': 0.0, 'cvc5': 0}
        self.inlined = set()
        self.used_contracts = set()
        self.libs = {}
        self.typ = z3.Function('typ', U, IntS)
        self.typtags = {}
        from . import models
        models.install(self)

    # -- run ---------------------------------------------------------------
    def verify(self, name, run, budget=None):
        """Explore all paths of run(engine); returns (status, obligations, info)."""
        t0 = time.time()
        self.loops = {}
        self.preload = []
        self.deadline = t0 + (budget or self.budget)
        restarts = 0
        while True:
            self.obs = []
            self.memo = {}
            self.covers = {}
            self.cur = name
            stack = [[]]
            self.npaths = 0
            self.events = []
            self.variants_ok = {}
            try:
                while stack:
                    self.prefix = stack.pop()
                    self.pending = []
                    self._reset()
                    try:
                        for m, n in self.preload:
                            self.module_get(self.prog.module(m), n)
                        run(self)
                    except PathEnd:
                        pass
                    self.npaths += 1
                    stack.extend(self.pending)
                    if time.time() > self.deadline:
                        raise Unsupported('time budget of %s exceeded' % name)
                    if self.npaths > 20000:
                        raise Unsupported('too many paths in %s' % name)
                self._check_variants()
                break
            except Restart:
                restarts += 1
                if restarts > 400:
                    raise Unsupported('invariant inference does not converge in %s' % name)
        return {'paths': self.npaths, 'restarts': restarts, 'wall': time.time() - t0}

    def _reset(self):
        self.trail = []
        self.qn = 0
        self.pc = []
        self.guards = []
        self.solver = None
        self.solver_n = 0
        self.counter = itertools.count()
        Obj._ids = itertools.count(1)
        self.modcache = {}
        self.frames = []
        self.ghost = dict(getattr(self, 'ghost_init', {}))
        self.written = {}
        self.fattr_written = {}
        self.textconst = {}
        self.fobjs = {}
        self.callno = itertools.count()
        self.depth = 0
        self.lineno = None
        self.cuts = 0

    # -- solver ------------------------------------------------------------
    def fresh_name(self, base):
        return '%s!%d' % (base, next(self.counter))

    def fint(self, base='i'):
        return SInt(z3.Int(self.fresh_name(base)))

    def fbool(self, base='b'):
        return SBool(z3.Bool(self.fresh_name(base)))

    def fu(self, base='u'):
        return z3.Const(self.fresh_name(base), U)

    @contextlib.contextmanager
    def under(self, cond):
        """What is assumed inside holds where cond does."""
        self.guards.append(cond)
        try:
            yield
        finally:
            self.guards.pop()

    def assume(self, f):
        if self.guards:
            f = z3.Implies(z3.And(self.guards), z3.BoolVal(f) if isinstance(f, bool) else f)
        if isinstance(f, bool):
            if not f:
                raise PathEnd()
            return
        f = z3.simplify(f)
        if z3.is_true(f):
            return
        if z3.is_false(f):
            raise PathEnd()
        self.pc.append(f)

    def _sync(self):
        if self.solver is None:
            self.solver = z3.Solver()
            self.solver.set('timeout', 2500)
            self.solver_n = 0
        for f in self.pc[self.solver_n:]:
            if not has_quant(f):
                self.solver.add(f)
        self.solver_n = len(self.pc)

    def _quick(self, f):
        """sat/unsat/unknown of qf(pc) and f."""
        key = ('q', tuple(self.trail), self.qn)
        self.qn += 1
        at = self.state(f)
        if self.known(key, at):
            return self.memo[key][0]
        self._sync()
        t = time.time()
        self.solver.push()
        self.solver.add(f)
        r = str(self.solver.check())
        self.solver.pop()
        self.stats['queries'] += 1
        self.stats['solver_s'] += time.time() - t
        self.memo[key] = (r, at)
        return r

    def state(self, f):
        """What a query is about: asked again on another path with the same beginning, it is the same."""
        return (f, len(self.pc), self.pc[-1] if self.pc else None)

    def known(self, key, at):
        if key not in self.memo:
            return False
        for a, b in zip(self.memo[key][1], at):
            if a is not b and not (a == b if not isinstance(a, z3.ExprRef) or not isinstance(b, z3.ExprRef) else a.eq(b)):
                self.stats['strays'] = self.stats.get('strays', 0) + 1
                return False
        return True

    def must(self, f):
        """The condition holds on this path (proved by a quick query)."""
        if isinstance(f, bool):
            return f
        f = z3.simplify(f)
        if z3.is_true(f):
            return True
        if z3.is_false(f):
            return False
        return self._quick(z3.Not(f)) == 'unsat'

    def branch(self, c):
        if isinstance(c, SBool):
            c = c.t
        if isinstance(c, bool):
            return c
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        i = len(self.trail)
        if i < len(self.prefix):
            v = self.prefix[i]
        else:
            if time.time() > self.deadline:
                raise Unsupported('time budget exceeded')
            ft = self._quick(c)
            ff = self._quick(z3.Not(c)) if ft != 'unsat' else 'sat'
            if ft == 'unsat':
                v = False
            elif ff == 'unsat':
                v = True
            else:
                v = True
                self.pending.append(self.trail + [False])
        self.trail.append(v)
        self.qn = 0
        self.assume(c if v else z3.Not(c))
        return v

    def choose(self, n):
        """Nondeterministic choice of 0..n-1 (all explored)."""
        if n == 1:
            return 0
        i = len(self.trail)
        if i < len(self.prefix):
            v = self.prefix[i]
        else:
            v = 0
            for k in range(1, n):
                self.pending.append(self.trail + [k])
        self.trail.append(v)
        self.qn = 0
        return v

    def full_check(self, f, ms=None):
        """('unsat'|'sat'|'unknown', model, backend) of pc and f."""
        t = time.time()
        s = z3.Solver()
        s.set('timeout', ms or self.query_ms)
        for x in self.pc:
            s.add(x)
        s.add(f)
        r = str(s.check())
        self.stats['queries'] += 1
        self.stats['solver_s'] += time.time() - t
        if r == 'sat':
            m = s.model()
            if has_quant(f) or not z3.is_false(m.eval(f, model_completion=True)):
                return r, m, 'z3', s
            # not a model of what was asked: z3 does not decide this one
        if r == 'unsat':
            return r, None, 'z3', s
        t = time.time()
        r2 = self._cvc5(s)
        self.stats['solver_s'] += time.time() - t
        if r2 == 'unsat':
            self.stats['cvc5'] += 1
            return r2, None, 'cvc5', s
        return 'unknown', None, 'z3+cvc5', s

    def _cvc5(self, s):
        try:
            smt = s.to_smt2()
            with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
                f.write('(set-logic ALL)\n' + smt)
            try:
                p = subprocess.run(['cvc5', '--tlimit=8000', '--strings-exp', '--enum-inst', f.name],
                                   capture_output=True, text=True, timeout=15)
                return p.stdout.strip().split('\n')[0]
            finally:
                os.unlink(f.name)
        except Exception:
            return 'unknown'

    def oblige(self, label, f, assume=True):
        """The verification condition: f holds here."""
        if isinstance(f, SBool):
            f = f.t
        ob = Obligation(self.cur, label)
        ob.where = getattr(self, 'lineno', None)
        ob.trail = tuple(self.trail)
        ob.cut = self.cuts
        key = ('o', tuple(self.trail), self.qn, label)
        self.qn += 1
        at = self.state(f)
        if self.known(key, at):
            st = self.memo[key][0]
            if assume and not isinstance(f, bool):
                self.pc.append(f)
            if f is False:
                raise PathEnd()
            return st == 'proved'
        t = time.time()
        if isinstance(f, bool):
            if f:
                ob.status, ob.backend = 'proved', 'evaluation'
            else:
                r, m, b, s = self.full_check(z3.BoolVal(True))
                ob.status = {'unsat': 'proved', 'sat': 'refuted'}.get(r, 'unknown')
                ob.model, ob.backend = m, b
                if ob.status == 'refuted':
                    ob.smt = s.to_smt2()
        else:
            r, m, b, s = self.full_check(z3.Not(f))
            ob.status = {'unsat': 'proved', 'sat': 'refuted'}.get(r, 'unknown')
            ob.model, ob.backend = m, b
            if ob.status != 'proved':
                ob.smt = s.to_smt2()
        ob.time = time.time() - t
        if ob.status == 'refuted':
            ob.where = (ob.where, self.describe(ob.model))
        self.memo[key] = (ob.status, at)
        self.obs.append(ob)
        if f is False:
            raise PathEnd()
        if assume and not isinstance(f, bool):
            self.pc.append(f)
        return ob.status == 'proved'

    def describe(self, model):
        return {}

    def imprecise(self):
        """A model was used that admits more than the real function does: from here on a
        refuted obligation is not a violation by itself."""
        self.cuts += 1

    def cover(self, label):
        """This point must be reachable on some path (vacuity guard)."""
        qn, self.qn = self.qn, self.qn + 1
        if self.covers.get(label) == 'sat':
            return
        self.qn = qn
        r = self._quick(z3.BoolVal(True))
        if r != 'unsat':
            self.covers[label] = 'sat'
        else:
            self.covers.setdefault(label, 'unsat')

    # -- names -------------------------------------------------------------
    def lookup(self, name):
        fr = self.frames[-1]
        f = fr
        first = True
        while f is not None:
            if name in f.vars:
                v = f.vars[name]
                if isinstance(v, Poison):
                    raise Unsupported('%s may be unbound: %s' % (name, v.why))
                return v
            if name in f.locals and first and f.func is not None:
                self.throw('UnboundLocalError', "local variable '%s' referenced before assignment" % name)
            f = f.parent
            first = False
        return self.global_name(fr.module, name)

    def global_name(self, module, name, seen=None):
        if (module.name, name) in self.overrides:
            return self.overrides[(module.name, name)]
        if name in self.overrides:
            return self.overrides[name]
        v = self.module_get(module, name)
        if v is not NotImplemented:
            return v
        if name in self.builtins:
            return self.builtins[name]
        if hasattr(builtins, name):
            raise Unsupported('built-in %s' % name)
        self.throw('NameError', "name '%s' is not defined" % name)

    def module_get(self, module, name, seen=()):
        if (module.name, name) in self.overrides:
            return self.overrides[(module.name, name)]
        key = (module.name, name)
        if key in self.modcache:
            return self.modcache[key]
        if name in module.cache:
            return module.cache[name]
        if name in module.defs:
            v = self.eval_def(module, name, module.defs[name])
            return v
        for st in module.stars:
            m = self.import_target(module, st)
            if isinstance(m, Module) and m.name not in seen:
                v = self.module_get(m, name, tuple(seen) + (module.name,))
                if v is not NotImplemented:
                    return v
        return NotImplemented

    def import_target(self, module, st):
        mod = st.module or ''
        if st.level:
            base = module.name.split('.')[:-st.level]
            full = '.'.join(base + ([mod] if mod else []))
            path = os.path.join(self.prog.root, full.replace('.', '/') + '.py')
            if os.path.isfile(path):
                return self.prog.module(full)
        return LibModule(mod)

    def eval_def(self, module, name, sts):
        st = sts[-1]
        if isinstance(st, ast.FunctionDef):
            v = self.make_func(st, module, None, None)
            module_key = (module.name, name)
            self.modcache[module_key] = v
            return v
        if isinstance(st, ast.ClassDef):
            v = self.make_class(module, st)
            module.cache[name] = v
            return v
        if isinstance(st, ast.Import):
            for a in st.names:
                if (a.asname or a.name).split('.')[0] == name:
                    return LibModule(a.name if a.asname else a.name.split('.')[0])
        if isinstance(st, ast.ImportFrom):
            for a in st.names:
                if (a.asname or a.name) == name:
                    m = self.import_target(module, st)
                    if isinstance(m, Module):
                        v = self.module_get(m, a.name)
                        if v is NotImplemented:
                            raise Unsupported('import %s' % a.name)
                        return v
                    if m.name in ('builtins', 'past.builtins') and a.name in self.builtins:
                        return self.builtins[a.name]
                    return self.lib_attr(m, a.name)
        if isinstance(st, ast.Assign):
            fr = Frame(None, module, None)
            self.frames.append(fr)
            save = self.trail, self.prefix
            try:
                v = self.ev(st.value)
            finally:
                self.frames.pop()
            if isinstance(v, (Obj, Sym)):
                self.modcache[(module.name, name)] = v
                if isinstance(v, Obj):
                    v.ghost['modconst'] = name
            else:
                module.cache[name] = v
            return v
        raise Unsupported('definition of ' + name)

    def make_func(self, node, module, closure, cls, qual=None):
        f = Func(node, module, closure, qual or ((cls.name + '.' if cls else '') + getattr(node, 'name', '<lambda>')), cls)
        f.kind = None
        if closure is None:
            for d in getattr(node, 'decorator_list', ()):
                n = ast.unparse(d)
                if cls is not None and n in ('classmethod', 'staticmethod'):
                    f.kind = n
                elif n not in TRACING and not n.startswith('functools.wraps('):
                    f.kind = 'unknown'
        return f

    def make_class(self, module, st):
        bases = []
        for b in st.bases:
            fr = Frame(None, module, None)
            self.frames.append(fr)
            try:
                bv = self.ev(b)
            finally:
                self.frames.pop()
            if not isinstance(bv, Class):
                raise Unsupported('base class of ' + st.name)
            bases.append(bv)
        c = Class(st.name, bases or [self.builtin_classes['object']], {}, module)
        for s in st.body:
            if isinstance(s, ast.FunctionDef):
                c.attrs[s.name] = self.make_func(s, module, None, c)
            elif isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name):
                fr = Frame(None, module, None)
                self.frames.append(fr)
                try:
                    c.attrs[s.targets[0].id] = self.ev(s.value)
                finally:
                    self.frames.pop()
        self.classes[st.name] = c
        return c

    def cls(self, name, module='pp.yugen'):
        if name in self.builtin_classes:
            return self.builtin_classes[name]
        v = self.module_get(self.prog.module(module), name)
        if not isinstance(v, Class):
            raise Unsupported('no class ' + name)
        return v

    # -- exceptions ----------------------------------------------------------
    def throw(self, clsname, *args):
        c = self.builtin_classes.get(clsname)
        if c is None:
            raise Unsupported('exception class ' + clsname)
        raise PyRaise(c, args, where=getattr(self, 'lineno', None))

    def throw_if(self, cond, clsname, *args):
        """Raise when cond holds (forks)."""
        if self.branch(cond):
            self.throw(clsname, *args)

    # -- calls ---------------------------------------------------------------
    def call(self, fn, args, kw=None):
        kw = kw or {}
        if not isinstance(fn, (Sym, Obj)) and any(isinstance(a, StarArg) for a in args):
            raise Unsupported('call with a list of arguments of unknown length')
        if isinstance(fn, Builtin):
            return fn.fn(self, args, kw)
        if isinstance(fn, Bound):
            return self.call(fn.fn, [fn.self_] + list(args), kw)
        if isinstance(fn, Class):
            return self.instantiate(fn, args, kw)
        if isinstance(fn, Func):
            if fn.kind == 'unknown':
                raise Unsupported('decorators of ' + fn.qual)
            ct = self.contracts.get(fn.qual)
            if ct is not None and ct is not getattr(self, 'verifying', None):
                self.used_contracts.add(fn.qual)
                return ct.apply(self, self.bind(fn, args, kw), fn)
            if ct is not None and fn.qual in getattr(self, 'recursive', ()):
                return ct.apply(self, self.bind(fn, args, kw), fn)
            if ct is not None and any(f.func is not None and f.func.qual == fn.qual for f in self.frames):
                self.used_contracts.add(fn.qual)
                return ct.apply(self, self.bind(fn, args, kw), fn)
            return self.run_func(fn, args, kw)
        if isinstance(fn, (Sym, Obj)):
            h = self.call_opaque
            return h(fn, args, kw)
        raise Unsupported('call of %r' % (fn,))

    def call_opaque(self, fn, args, kw):
        if isinstance(fn, Obj) and isinstance(fn.cls, Class):
            m = self.find(fn.cls, '__call__')
            if m is not None:
                return self.call(m, [fn] + list(args), kw)
        raise Unsupported('call of an unknown object')

    def bind(self, fn, args, kw):
        a = fn.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        vals = {}
        args = list(args)
        if '**' in kw:
            raise Unsupported('call with unknown named arguments')
        for n in names:
            if args:
                vals[n] = args.pop(0)
            else:
                break
        if args:
            if a.vararg is None:
                self.throw('TypeError', 'too many arguments')
            vals[a.vararg.arg] = tuple(args)
        elif a.vararg is not None:
            vals[a.vararg.arg] = ()
        extra = {}
        for k, v in kw.items():
            if k in names or k in [x.arg for x in a.kwonlyargs]:
                if k in vals:
                    self.throw('TypeError', 'multiple values')
                vals[k] = v
            else:
                extra[k] = v
        if a.kwarg is not None:
            vals[a.kwarg.arg] = extra
        elif extra:
            self.throw('TypeError', 'unexpected keyword')
        nd = len(a.defaults)
        for i, n in enumerate(names):
            if n not in vals:
                j = i - (len(names) - nd)
                if j < 0:
                    self.throw('TypeError', 'missing argument ' + n)
                vals[n] = self.default_value(fn, a.defaults[j], ('d', j))
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in vals:
                if d is None:
                    self.throw('TypeError', 'missing argument ' + x.arg)
                vals[x.arg] = self.default_value(fn, d, ('k', x.arg))
        return vals

    def default_value(self, fn, node, key):
        """Default values are shared by all calls: one object per function."""
        k = (id(fn.node), key)
        if k not in self.fobjs:
            fr = Frame(None, fn.module, fn.closure)
            self.frames.append(fr)
            try:
                self.fobjs[k] = self.ev(node)
            finally:
                self.frames.pop()
        return self.fobjs[k]

    def run_func(self, fn, args, kw, genspec=None):
        vals = self.bind(fn, args, kw)
        if self.depth > 40:
            raise Unsupported('recursion of ' + fn.qual)
        if sum(1 for f in self.frames if f.func is not None and f.func.node is fn.node) > 3:
            raise Unsupported('recursive call of %s without a contract' % fn.qual)
        return self.run_body(fn, vals, genspec)

    def run_body(self, fn, vals, genspec=None):
        fr = Frame(fn, fn.module, fn.closure)
        fr.vars.update(vals)
        fr.genspec = genspec
        body = fn.node.body
        if isinstance(fn.node, ast.Lambda):
            fr.locals = set(vals)
            self.frames.append(fr)
            self.depth += 1
            try:
                return self.ev(body)
            finally:
                self.depth -= 1
                self.frames.pop()
        info = self.fninfo(fn)
        if info['gen'] and genspec is None:
            raise Unsupported('generator %s without a yield contract' % fn.qual)
        fr.locals = info['locals'] | set(vals)
        self.frames.append(fr)
        self.inlined.add(fn.qual)
        self.depth += 1
        try:
            self.block(body)
            return None
        except PyReturn as r:
            return r.val
        finally:
            self.depth -= 1
            self.frames.pop()

    _fninfo = {}

    def fninfo(self, fn):
        k = id(fn.node)
        if k not in self._fninfo:
            gen = False
            body = fn.node.body if isinstance(fn.node.body, list) else [ast.Expr(fn.node.body)]
            stack = list(body)
            while stack:
                n = stack.pop()
                if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.GeneratorExp)):
                    continue
                if isinstance(n, (ast.Yield, ast.YieldFrom)):
                    gen = True
                stack.extend(ast.iter_child_nodes(n))
            nonlocal_ = set()
            for n in ast.walk(fn.node):
                if isinstance(n, (ast.Global, ast.Nonlocal)):
                    nonlocal_ |= set(n.names)
            loops = {}
            cnt = itertools.count()
            for n in ast.walk(fn.node):
                if isinstance(n, (ast.While, ast.For, ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
                    loops[id(n)] = next(cnt)
            self._fninfo[k] = {'gen': gen, 'locals': assigned_names(body) - nonlocal_,
                               'loops': loops, 'live': Liveness(fn.node), 'node': fn.node,
                               'global': nonlocal_}
        return self._fninfo[k]

    # -- objects ---------------------------------------------------------------
    def find(self, cls, name):
        for c in cls.mro:
            if name in c.attrs:
                return c.attrs[name]
        return None

    def new(self, cls, payload=None, **fields):
        if isinstance(cls, str):
            cls = self.cls(cls)
        o = Obj(cls, payload, fields)
        return o

    def new_list(self, items=()):
        return Obj(self.builtin_classes['list'], ListP('conc', items=list(items)))

    def instantiate(self, cls, args, kw):
        name = cls.name
        if cls.builtin:
            h = self.constructors.get(name)
            if h is None:
                if cls.issub(self.builtin_classes['BaseException']):
                    return Obj(cls, None, {'args': tuple(args)})
                raise Unsupported('constructor of ' + name)
            return h(self, cls, args, kw)
        new = self.find(cls, '__new__')
        if isinstance(new, Func):
            obj = self.call(new, [cls] + list(args), kw)
        else:
            obj = self.base_new(cls, args, kw)
        init = self.find(cls, '__init__')
        if isinstance(init, Func):
            self.call(init, [obj] + list(args), kw)
        hook = getattr(self, 'on_new', None)
        if hook:
            hook(self, cls, obj)
        return obj

    def base_new(self, cls, args, kw):
        for c in cls.mro:
            if c.builtin and c.name in self.constructors and c.name != 'object':
                base = self.constructors[c.name](self, c, args, kw) if not isinstance(self.find(cls, '__init__'), Func) \
                    else self.constructors[c.name](self, c, [] if c.name in ('list', 'dict', 'set') else args, {})
                return self.wrap(cls, base)
        if cls.issub(self.builtin_classes['BaseException']):
            return Obj(cls, None, {'args': tuple(args)})
        return Obj(cls)

    def wrap(self, cls, base):
        """An instance of cls (a subclass of a builtin class) with this value."""
        if isinstance(base, Obj):
            return Obj(cls, base.payload)
        return Obj(cls, base)

    def isinst(self, v, cls):
        """isinstance -> bool or SBool"""
        if isinstance(cls, tuple):
            r = [self.isinst(v, c) for c in cls]
            if any(x is True for x in r):
                return True
            r = [x for x in r if x is not False]
            return SBool(z3.Or([x.t for x in r])) if r else False
        if not isinstance(cls, Class):
            raise Unsupported('isinstance of %r' % (cls,))
        if isinstance(v, Sym):
            return self.sym_isinst(v, cls)
        c = self.class_of(v)
        return c.issub(cls)

    def class_of(self, v):
        b = self.builtin_classes
        if isinstance(v, Obj):
            return v.cls
        if v is None:
            return b['NoneType']
        if isinstance(v, (bool, SBool)):
            return b['bool']
        if isinstance(v, (int, SInt)):
            return b['int']
        if isinstance(v, (float, SFloat)):
            return b['float']
        if isinstance(v, (str, SStr)):
            return b['str']
        if isinstance(v, tuple):
            return b['tuple']
        if isinstance(v, frozenset):
            return b['frozenset']
        if isinstance(v, Class):
            return b['type']
        if isinstance(v, (Func, Builtin, Bound)):
            return b['function']
        if isinstance(v, dict):
            return b['dict']
        if isinstance(v, Slice):
            return b['slice']
        if isinstance(v, LibModule):
            return b['module']
        if isinstance(v, (GenObj, IterSrc)):
            return b['generator']
        raise Unsupported('class of %r' % (v,))

    def tag(self, clsname):
        return self.typtags.setdefault(clsname, len(self.typtags) + 1)

    def typ_in(self, u, names):
        """The class of u is one of these."""
        cache = self.__dict__.setdefault('_typ_in', {})
        key = u.get_id(), names
        r = cache.get(key)
        if r is None:
            r = cache[key] = (u, z3.Or([self.typ(u) == self.tag(n) for n in names]))    # u: its number stays taken
        return r[1]

    def sym_isinst(self, v, cls):
        cache = self.__dict__.setdefault('_names', {})
        key = v.classes, cls
        if key not in cache:
            cache[key] = self.names_of(v, cls)
        names = cache[key]
        if isinstance(names, bool):
            return names
        return SBool(self.typ_in(v.u, names))

    def names_of(self, v, cls):
        if v.classes is None:
            # any class of the program or a builtin one
            names = [c for c in self.leafs() if self.cls(c).issub(cls)]
        else:
            names = [c for c in v.classes if self.cls(c).issub(cls)]
            if len(names) == len(v.classes):
                return True
        if not names:
            return False
        return tuple(sorted(names))

    def leafs(self):
        m = self.prog.module('pp.yugen')
        if not hasattr(self, '_leafs'):
            self._leafs = [n for n, d in m.defs.items() if isinstance(d[-1], ast.ClassDef)] \
                + ['NoneType', 'bool', 'int', 'float', 'str', 'list', 'dict', 'tuple', 'function']
        return self._leafs

    def sym(self, classes=None, base='v', u=None):
        s = Sym(u if u is not None else self.fu(base), frozenset(classes) if classes else None)
        cs = classes if classes else self.leafs()
        self.assume(self.typ_in(s.u, tuple(sorted(cs))))
        return s

    def narrow(self, v):
        """Refine a Sym to the single class known on this path, if there is one."""
        if not isinstance(v, Sym):
            return v
        cs = [c for c in (sorted(v.classes) if v.classes is not None else self.leafs())]
        if len(cs) > 1:
            poss = [c for c in cs if self._quick(self.typ(v.u) == self.tag(c)) != 'unsat']
            v.classes = frozenset(poss)
        return v

    def case_class(self, v):
        """Fork until the class of a Sym is a single one; returns it."""
        self.narrow(v)
        cs = sorted(v.classes)
        while len(cs) > 1:
            c = cs[0]
            if self.branch(self.typ(v.u) == self.tag(c)):
                v.classes = frozenset([c])
                return self.cls(c)
            cs = cs[1:]
            v.classes = frozenset(cs)
        if not cs:
            raise PathEnd()
        return self.cls(cs[0])

    # -- statements --------------------------------------------------------------
    def block(self, stmts):
        for st in stmts:
            self.stmt(st)

    def stmt(self, st):
        self.lineno = getattr(st, 'lineno', None)
        m = getattr(self, 's_' + type(st).__name__, None)
        if m is None:
            raise Unsupported('statement ' + type(st).__name__)
        return m(st)

    def s_Expr(self, st):
        if isinstance(st.value, ast.Constant):
            return
        self.ev(st.value)

    def s_Pass(self, st):
        pass

    def s_Global(self, st):
        raise Unsupported('global')

    def s_Assign(self, st):
        v = self.ev(st.value)
        for t in st.targets:
            self.assign(t, v)

    def s_AnnAssign(self, st):
        if st.value is not None:
            self.assign(st.target, self.ev(st.value))

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            fr = self.frames[-1]
            fr.vars[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = self.unpack(v, len(t.elts))
            for e, x in zip(t.elts, items):
                self.assign(e, x)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value)
            k = self.ev_index(t.slice)
            self.setitem(o, k, v)
        else:
            raise Unsupported('assignment target')

    def unpack(self, v, n):
        if isinstance(v, tuple):
            if len(v) != n:
                self.throw('ValueError', 'unpack')
            return v
        if isinstance(v, Obj) and isinstance(v.payload, ListP) and v.payload.kind == 'conc':
            if len(v.payload.items) != n:
                self.throw('ValueError', 'unpack')
            return v.payload.items
        if isinstance(v, Sym):
            h = getattr(self, 'unpack_sym', None)
            if h is not None:
                return h(self, v, n)
        raise Unsupported('unpack %r' % (v,))

    def s_AugAssign(self, st):
        t = st.target
        if isinstance(t, ast.Name):
            old = self.lookup(t.id)
            self.frames[-1].vars[t.id] = self.inplace(st.op, old, self.ev(st.value))
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value)
            old = self.getattr(o, t.attr)
            self.setattr(o, t.attr, self.inplace(st.op, old, self.ev(st.value)))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value)
            k = self.ev_index(t.slice)
            old = self.getitem(o, k)
            self.setitem(o, k, self.inplace(st.op, old, self.ev(st.value)))
        else:
            raise Unsupported('augmented target')

    def inplace(self, op, a, b):
        if isinstance(a, Obj) and isinstance(a.payload, ListP) and isinstance(op, ast.Add):
            self.list_method(a, 'extend', [b], {})
            return a
        return self.binop(op, a, b)

    def s_If(self, st):
        if self.branch_truth(self.ev(st.test)):
            self.block(st.body)
        else:
            self.block(st.orelse)

    def branch_truth(self, v):
        return self.branch(self.truth(v))

    def s_Return(self, st):
        raise PyReturn(self.ev(st.value) if st.value is not None else None)

    def s_Break(self, st):
        raise Brk()

    def s_Continue(self, st):
        raise Cont()

    def s_Delete(self, st):
        for t in st.targets:
            if isinstance(t, ast.Name):
                self.lookup(t.id)
                self.frames[-1].vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value)
                self.delitem(o, self.ev_index(t.slice))
            else:
                raise Unsupported('del')

    def s_FunctionDef(self, st):
        fr = self.frames[-1]
        q = (fr.func.qual + '.' if fr.func else '') + st.name
        f = self.make_func(st, fr.module, fr, None, q)
        v = f
        for d in reversed(st.decorator_list):
            v = self.call(self.ev(d), [v])
        fr.vars[st.name] = v

    def s_ClassDef(self, st):
        fr = self.frames[-1]
        bases = [self.ev(b) for b in st.bases]
        c = Class(st.name, [b for b in bases if isinstance(b, Class)] or [self.builtin_classes['object']], {}, fr.module)
        for s in st.body:
            if isinstance(s, ast.FunctionDef):
                c.attrs[s.name] = self.make_func(s, fr.module, fr, c)
        fr.vars[st.name] = c

    def s_Import(self, st):
        for a in st.names:
            self.frames[-1].vars[(a.asname or a.name).split('.')[0]] = LibModule(a.name if a.asname else a.name.split('.')[0])

    def s_ImportFrom(self, st):
        m = self.import_target(self.frames[-1].module, st)
        for a in st.names:
            if isinstance(m, Module):
                v = self.overrides[a.name] if a.name in self.overrides else self.module_get(m, a.name)
            else:
                v = self.lib_attr(m, a.name)
            self.frames[-1].vars[a.asname or a.name] = v

    def s_Assert(self, st):
        if not self.branch_truth(self.ev(st.test)):
            self.throw('AssertionError')

    def s_Raise(self, st):
        if st.exc is None:
            cur = self.ghost.get('handling')
            if not cur:
                raise Unsupported('bare raise')
            raise cur[-1]
        v = self.ev(st.exc)
        if isinstance(v, Class):
            raise PyRaise(v, (), where=st.lineno)
        if isinstance(v, Obj):
            raise PyRaise(v.cls, v.fields.get('args', ()), obj=v, where=st.lineno)
        raise Unsupported('raise')

    def s_Try(self, st):
        try:
            try:
                self.block(st.body)
            except PyRaise as e:
                for h in st.handlers:
                    if h.type is None:
                        m = True
                    else:
                        m = self.exc_match(e, self.ev(h.type))
                    if self.branch(m):
                        if h.name:
                            self.frames[-1].vars[h.name] = self.exc_obj(e)
                        self.ghost.setdefault('handling', []).append(e)
                        try:
                            self.block(h.body)
                        finally:
                            self.ghost['handling'].pop()
                            if h.name:
                                self.frames[-1].vars.pop(h.name, None)
                        break
                else:
                    raise
            else:
                self.block(st.orelse)
        except (PyRaise, PyReturn, Brk, Cont):
            if st.finalbody:
                self.block(st.finalbody)
            raise
        else:
            self.block(st.finalbody)

    def exc_obj(self, e):
        if e.obj is None:
            e.obj = Obj(e.cls, None, {'args': tuple(e.args_)})
        return e.obj

    def exc_match(self, e, t):
        if isinstance(t, tuple):
            r = [self.exc_match(e, x) for x in t]
            if any(x is True for x in r):
                return True
            r = [x for x in r if x is not False]
            return SBool(z3.Or([x.t for x in r])) if r else False
        if not isinstance(t, Class):
            raise Unsupported('except clause')
        if isinstance(e.cls, Sym):
            # an exception of unknown class: nondeterministic, consistently named
            names = e.cls.classes
            sub = [n for n in names if self.builtin_classes[n].issub(t)]
            if len(sub) == len(names):
                return True
            return SBool(z3.Or([self.typ(e.cls.u) == self.tag(n) for n in sorted(sub)])) if sub else False
        return e.cls.issub(t)

    def s_With(self, st):
        mgrs = []
        for it in st.items:
            m = self.ev(it.context_expr)
            v = self.with_enter(m)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v)
            mgrs.append(m)
        try:
            self.block(st.body)
        except (PyRaise, PyReturn, Brk, Cont):
            for m in reversed(mgrs):
                self.with_exit(m)
            raise
        for m in reversed(mgrs):
            self.with_exit(m)

    # -- loops -------------------------------------------------------------------
    def loop_key(self, node):
        fr = self.frames[-1]
        if fr.func is None:
            return ('module', id(node))
        # the frame's function, or the function enclosing a comprehension
        f = fr
        while f is not None and (f.func is None or id(node) not in self.fninfo(f.func)['loops']):
            f = f.parent
        if f is None:
            return (fr.func.qual, id(node))
        return (f.func.qual, self.fninfo(f.func)['loops'][id(node)])

    def s_While(self, st):
        fr = self.frames[-1]
        policy = getattr(self, 'loop_policy', None)
        if policy:
            p = policy(self, st)
            if p is not None:
                return p(self, st)
        # concrete loops are unrolled while the test is decided
        self.cut_loop(st, None, lambda: self.truth(self.ev(st.test)), lambda: self.block(st.body), st.body + [ast.Expr(st.test)])
        if st.orelse:
            raise Unsupported('while-else')

    def s_For(self, st):
        policy = getattr(self, 'loop_policy', None)
        if policy:
            p = policy(self, st)
            if p is not None:
                return p(self, st)
        src = self.iterate(self.ev(st.iter))
        self.for_src(st, src, lambda v: self.assign(st.target, v), lambda: self.block(st.body), [st])
        # the else clause runs when the loop was not left by break

    def for_src(self, st, src, bindf, bodyf, nodes):
        if isinstance(src, list):
            for x in src:
                bindf(x)
                try:
                    bodyf()
                except Cont:
                    continue
                except Brk:
                    return
            if getattr(st, 'orelse', None):
                self.block(st.orelse)
            return
        # symbolic iteration: hidden index
        fr = self.frames[-1]
        key = '%idx' + str(self.loop_key(st)[1])
        fr.vars[key] = SInt(z3.IntVal(0))

        def test():
            k = fr.vars[key].t
            return SBool(k < src.n)

        def body():
            k = fr.vars[key].t
            bindf(src.get(k))
            fr.vars[key] = SInt(k + 1)
            bodyf()
        r = self.cut_loop(st, key, test, body, nodes, src)
        if getattr(st, 'orelse', None) and r == 'done':
            self.block(st.orelse)

    # signature / havoc of values ---------------------------------------------------
    def sig(self, v, depth=0):
        if v is None:
            return 'None'
        if isinstance(v, (bool, SBool)):
            return 'bool'
        if isinstance(v, (int, SInt)):
            return 'int'
        if isinstance(v, (float, SFloat)):
            return 'float'
        if isinstance(v, (str, SStr)):
            return self.str_sig(v)
        if isinstance(v, tuple):
            return ('tuple',) + tuple(self.sig(x, depth + 1) for x in v)
        if isinstance(v, Sym):
            return ('sym', tuple(sorted(v.classes)) if v.classes is not None else None)
        if isinstance(v, Obj):
            if isinstance(v.payload, (str, SStr)):
                fs = tuple((k, self.sig(x, depth + 1)) for k, x in sorted(v.fields.items()))
                return ('strobj', v.cls.name, self.str_sig(v.payload), fs)
            return ('obj', v.cls.name)
        if isinstance(v, Poison):
            return 'poison'
        if isinstance(v, GenObj):
            return ('gen', v.contract.name)
        if isinstance(v, (Class, Builtin, LibModule, Regex)):
            return ('const', getattr(v, 'name', ''))
        if isinstance(v, Func):
            return ('func', v.qual)
        if isinstance(v, (frozenset, dict)):
            return ('const', type(v).__name__)
        return ('other', type(v).__name__)

    def str_sig(self, v):
        if isinstance(v, str):
            return 'str'
        if len(v.ps) == 1 and isinstance(v.ps[0], View):
            return ('view', v.ps[0].text.name)
        if all(isinstance(p, (ZStr, str)) for p in v.ps):
            return 'zstr'
        return 'str'

    def havoc(self, v, name, depth=0):
        if v is None or isinstance(v, (Class, Builtin, LibModule, Func, Regex, frozenset, Poison)):
            return v
        if isinstance(v, (bool, SBool)):
            return self.fbool(name)
        if isinstance(v, (int, SInt)):
            return self.fint(name)
        if isinstance(v, (str, SStr)):
            return self.havoc_str(v, name)
        if isinstance(v, tuple):
            return tuple(self.havoc(x, '%s.%d' % (name, i), depth + 1) for i, x in enumerate(v))
        if isinstance(v, Sym):
            return self.sym(v.classes, name)
        if isinstance(v, GenObj):
            return GenObj(v.contract, v.contract.havoc(self, v.g, name))
        if isinstance(v, Obj):
            if isinstance(v.payload, (str, SStr)):
                o = Obj(v.cls, self.havoc_str(v.payload, name))
                for k, x in v.fields.items():
                    o.fields[k] = self.havoc(x, '%s.%s' % (name, k), depth + 1)
                return o
            if v.cls.name in ('list', 'dict', 'set') or isinstance(v.payload, (ListP, DictP)):
                o = Obj(v.cls, v.payload, v.fields)
                self.havoc_payload(o, name, None)
                return o
            if v.payload is None and v.cls.module is not None and depth < 3:
                # some object of this class, made in an earlier iteration
                o = Obj(v.cls)
                for k, x in v.fields.items():
                    o.fields[k] = self.havoc(x, '%s.%s' % (name, k), depth + 1)
                o.ghost = dict(v.ghost)
                o.ghost['havoced'] = True
                return o
            raise Unsupported('variable %s (%s object) is rebound in a loop' % (name, v.cls.name))
        if isinstance(v, SFloat):
            return SFloat(self.fu(name))
        raise Unsupported('havoc of %s = %r' % (name, v))

    def havoc_str(self, v, name):
        s = self.str_sig(v)
        if isinstance(s, tuple):
            text = v.ps[0].text
            a, b = self.fint(name + '.a').t, self.fint(name + '.b').t
            self.assume(z3.And(0 <= a, a <= b, b <= text.n))
            return SStr([View(text, a, b)])
        if s == 'zstr':
            return SStr([ZStr(z3.String(self.fresh_name(name)))])
        return self.ostr(name)

    def ostr(self, name='s'):
        n = self.fint(name + '.len').t
        self.assume(n >= 0)
        return SStr([OStr(self.fu(name), n)])

    def list_kind(self, items):
        """Kind of symbolic list for these items."""
        if items and all(isinstance(x, tuple) and all(isinstance(y, (int, SInt)) and not isinstance(y, bool) for y in x)
                         and len(x) == len(items[0]) for x in items):
            return ('tup', len(items[0]))
        if items and all(isinstance(x, (int, SInt)) and not isinstance(x, bool) for x in items):
            return ('tup', 0)
        return ('seq',)

    def havoc_payload(self, o, name, kind):
        p = o.payload
        if isinstance(p, ListP):
            if p.kind == 'conc':
                k = kind or self.list_kind(p.items)
            else:
                k = ('tup', p.k) if p.kind == 'tup' else (p.kind,)
            o.payload = self.sym_list(k, name)
            return
        if isinstance(p, DictP):
            h = getattr(self, 'havoc_dict', None)
            if h:
                h(self, o, name)
                return
            if getattr(self, 'sym_maps', False) and not p.items and not p.removed and (p.base is None or isinstance(p.base, Map)):
                o.payload = DictP(None, Map.any(self, name))
                return
        if isinstance(p, z3.ExprRef):
            o.payload = z3.Const(self.fresh_name(name), p.sort())
            return
        if isinstance(p, frozenset):
            srt = getattr(self, 'empty_set_sort', None) if not p else z3.IntSort() if all(self.is_int(x) for x in p) else U
            if srt is not None:
                o.payload = z3.Const(self.fresh_name(name), z3.ArraySort(srt, z3.BoolSort()))
                return
        raise Unsupported('havoc of object %s (%s)' % (name, o.cls.name))

    def sym_list(self, k, name):
        if k[0] == 'tup':
            n = self.fint(name + '.n').t
            self.assume(n >= 0)
            arrs = [z3.Const(self.fresh_name(name + '.arr'), ArrI) for _ in range(max(k[1], 1))]
            return ListP('tup', n=n, arrs=arrs, k=k[1])
        if k[0] == 'seq':
            return ListP('seq', seq=z3.Const(self.fresh_name(name + '.seq'), SeqU))
        raise Unsupported('symbolic list ' + k[0])

    # access paths of heap objects ------------------------------------------------
    def access_paths(self, fr):
        """(path, object) for the objects reachable from the frame in <= 2 steps."""
        out = []
        seen = set()

        def visit(path, v, d):
            if isinstance(v, (Obj, Func)):
                if id(v) in seen:
                    return
                seen.add(id(v))
                out.append((path, v))
                if d:
                    for k, x in (v.fields if isinstance(v, Obj) else v.attrs).items():
                        visit(path + '.' + k, x, d - 1)
                    if isinstance(v, Obj) and isinstance(v.payload, ListP) and v.payload.kind == 'conc':
                        for i, x in enumerate(v.payload.items):
                            visit('%s[%d]' % (path, i), x, d - 1)
        f = fr
        lvl = 0
        while f is not None:
            for k, v in sorted(f.vars.items()):
                visit('^' * lvl + k, v, 3)
            f = f.parent
            lvl += 1
        for (m, n), v in sorted(self.modcache.items()):
            visit('%s:%s' % (m, n), v, 2)
        for name, v in sorted(self.roots.items()) if hasattr(self, 'roots') else ():
            visit('$' + name, v, 3)
        return out

    def cut_loop(self, st, idxkey, test, body, nodes, src=None):
        """A loop under an invariant.  Returns 'done' or 'break'."""
        fr = self.frames[-1]
        key = self.loop_key(st)
        # a loop whose test stays decided is simply executed (bounded unrolling of concrete loops)
        if idxkey is None:
            for _ in range(400):
                c = test()
                if isinstance(c, SBool):
                    cc = z3.simplify(c.t)
                    c = True if z3.is_true(cc) else False if z3.is_false(cc) else c
                if c is False:
                    return 'done'
                if c is True and isinstance(st, ast.While) and not (isinstance(st.test, ast.Constant)):
                    if self.concrete_state(fr, st):
                        try:
                            body()
                        except Cont:
                            pass
                        except Brk:
                            return 'break'
                        continue
                break
        self.cuts += 1
        info = self.loops.setdefault(key, LoopInfo())
        mod = assigned_names(nodes) & (fr.locals | {idxkey} | set(fr.vars))
        if isinstance(st, ast.For):
            mod |= assigned_names([ast.Assign([st.target], ast.Constant(None))])
        hidden = set(getattr(st, 'hidden', ()))
        mod |= hidden
        if idxkey:
            mod.add(idxkey)
        lf = fr
        while lf is not None and (lf.func is None or isinstance(lf.func.node, ast.Lambda)):
            lf = lf.parent
        live = self.fninfo(lf.func)['live'].loop_heads.get(id(st)) if lf is not None and lf.func is not None else None
        if live is None:
            live = set(mod)
        else:
            live = set(live) | hidden
        if idxkey:
            live.add(idxkey)
        shared = [v for v in sorted(mod) if v in live]
        dead = [v for v in mod if v not in live]

        def current_sig():
            s = []
            for v in shared:
                s.append((v, self.sig(fr.vars[v]) if v in fr.vars else 'unbound'))
            for path in sorted(info.mods):
                if info.mods[path][0] == 'field':
                    o = self.by_path(fr, path.rsplit('#', 1)[0])
                    s.append((path, self.sig(self.read_field(o, path.rsplit('#', 1)[1]))))
            return tuple(s)

        entry = {v: fr.vars[v] for v in fr.vars}
        entry_fields = {}
        entry_pay = {}
        for path in sorted(info.mods):
            k = info.mods[path]
            o = self.by_path(fr, path.rsplit('#', 1)[0])
            if k[0] == 'field':
                entry_fields[path] = self.read_field(o, path.rsplit('#', 1)[1])
            else:
                entry_pay[path] = (o, o.payload.copy() if isinstance(o.payload, ListP) else o.payload)
        s0 = current_sig()
        if s0 not in info.sigs:
            info.sigs.append(s0)
            raise Restart()
        # the lists concerned take their symbolic form at once
        for path, k in sorted(info.mods.items()):
            if k[0] == 'list':
                o = entry_pay[path][0]
                if isinstance(o.payload, ListP) and o.payload.kind == 'conc':
                    o.payload = self.to_kind(o.payload, k[1])
                    entry_pay[path] = (o, o.payload.copy())
        ctx = {'fr': fr, 'entry': entry, 'entry_fields': entry_fields, 'entry_pay': entry_pay, 'key': key,
               'idx': idxkey, 'src': src, 'info': info, 'shared': shared, 'mods': info.mods, 'st': st,
               'dead': set(dead)}
        # 1. candidates hold on entry
        self.check_cands(ctx, s0, 'entry')
        # 2. an arbitrary iteration
        si = self.choose(len(info.sigs))
        s = info.sigs[si]
        exemplar = self.sig_exemplars(key, s, s0, fr, shared, info)
        for v, sv in s:
            if '#' in v:
                continue
            if sv == 'unbound':
                fr.vars.pop(v, None)
            else:
                fr.vars[v] = self.havoc_sig(sv, v, entry.get(v), s0, exemplar)
        for v in dead:
            if v in fr.vars or v in fr.locals:
                fr.vars[v] = Poison('assigned in a loop')
        for path, k in sorted(info.mods.items()):
            o = self.by_path(fr, path.rsplit('#', 1)[0])
            if k[0] == 'field':
                f = path.rsplit('#', 1)[1]
                sv = dict(s)[path]
                self.write_field(o, f, self.havoc_sig(sv, path, self.read_field(o, f), s0, exemplar))
            else:
                self.havoc_payload(o, path, k[1] if k[0] == 'list' else None)
        if idxkey and src is not None:
            k = fr.vars[idxkey].t
            self.assume(z3.And(0 <= k, k <= src.n))
        # a candidate is assumed when it was (or will be) checked at every arrival
        named = info.named.get(s)
        for n, f in self.cands(ctx, s):
            if n in info.dropped.get(s, ()):
                continue
            if named is not None and n not in named:
                info.dropped.setdefault(s, set()).add(n)
                continue
            info.used.setdefault(s, set()).add(n)
            self.assume(f)
        head = {v: fr.vars.get(v) for v in fr.vars}
        variants0 = self.variants(ctx)
        mark = self.mark_writes()
        # 3. test and body
        self.bodies.setdefault((self.cur, key), False)
        if not self.branch(test()):
            return 'done'
        self.bodies[(self.cur, key)] = True
        try:
            body()
        except Cont:
            pass
        except Brk:
            return 'break'
        # 4. back edge
        self.register_writes(fr, mark, info, ctx)
        s1 = current_sig()
        if s1 not in info.sigs:
            if len(info.sigs) > 12:
                raise Unsupported('too many shapes at the head of loop %s' % (key,))
            info.sigs.append(s1)
            self.note_exemplar(key, s1, fr, shared, info)
            raise Restart()
        self.check_cands(ctx, s1, 'preserved')
        self.check_variant(ctx, variants0, idxkey)
        raise PathEnd()

    exemplars = {}

    def note_exemplar(self, key, s, fr, shared, info):
        ex = {}
        for v in shared:
            if v in fr.vars:
                ex[v] = fr.vars[v]
        for path in info.mods:
            if info.mods[path][0] == 'field':
                o = self.by_path(fr, path.rsplit('#', 1)[0])
                ex[path] = self.read_field(o, path.rsplit('#', 1)[1])
        self.exemplars[(self.cur, key, s)] = ex

    def sig_exemplars(self, key, s, s0, fr, shared, info):
        if s == s0:
            return None
        return self.exemplars.get((self.cur, key, s))

    def havoc_sig(self, sv, name, entryval, s0, exemplar):
        v = entryval
        if exemplar is not None and name in exemplar:
            v = exemplar[name]
            v = self.rebase(v)
        if self.sig(v) != sv and not (exemplar is None):
            raise Unsupported('shape of %s' % name)
        return self.havoc(v, name)

    def rebase(self, v):
        return v

    def concrete_state(self, fr, st):
        names = read_names(st)
        for n in names:
            v = fr.vars.get(n)
            if isinstance(v, (SInt, SStr, SBool, Sym, GenObj)):
                return False
            if isinstance(v, Obj) and not (isinstance(v.payload, ListP) and v.payload.kind == 'conc'):
                return False
        return True

    # writes ------------------------------------------------------------------------
    def note_write(self, o, what):
        self.written.setdefault(id(o), (o, set()))[1].add(what)
        self.wlog.append((o, what)) if hasattr(self, 'wlog') else None

    def mark_writes(self):
        self.wlogs = getattr(self, 'wlogs', [])
        m = len(self.wl())
        return m, set(id(o) for _, o in self.access_paths(self.frames[-1])), next(Obj._ids)

    def wl(self):
        if 'wlog' not in self.ghost:
            self.ghost['wlog'] = []
        return self.ghost['wlog']

    def wrote(self, o, what):
        if isinstance(o, Obj) and o.ghost.get('havoced'):
            # it might be another object of its class
            for p, x in self.access_paths(self.frames[-1]):
                if x is not o and isinstance(x, Obj) and x.cls is o.cls:
                    raise Unsupported('possible aliasing of %s objects' % o.cls.name)
        self.wl().append((o, what))

    def register_writes(self, fr, mark, info, ctx):
        n, ids, first = mark
        new = {}
        paths = None
        for o, what in self.wl()[n:]:
            if id(o) not in ids:
                if isinstance(o, Func) and o.closure is None or isinstance(o, Obj) and 'modconst' in o.ghost:
                    # a module-level object first used in the body: load it at the beginning of every path
                    for k, v in self.modcache.items():
                        if v is o and k not in self.preload:
                            self.preload.append(k)
                            raise Restart()
                    raise Unsupported('a module-level object is modified in a loop')
                if getattr(o, 'oid', 0) < first:
                    raise Unsupported('an object modified in a loop is not within reach of the loop head')
                continue        # created in the body
            if paths is None:
                paths = {}
                # paths at the loop head: variables that were not rebound
                for p, x in self.access_paths(fr):
                    paths.setdefault(id(x), p)
            p = paths.get(id(o))
            if p is None:
                # it was reachable at the head and is not any more
                raise Unsupported('an object modified in a loop is no longer reachable')
            if what == 'payload':
                k = ('payload',)
                if isinstance(o.payload, ListP):
                    if o.payload.kind == 'conc':
                        kind = self.list_kind(o.payload.items)
                        for q, (x, pay) in ctx['entry_pay'].items():
                            pass
                    else:
                        kind = ('tup', o.payload.k) if o.payload.kind == 'tup' else (o.payload.kind,)
                    k = ('list', kind)
                p2 = p + '#payload' if False else p
                if p2 not in info.mods:
                    new[p2] = k
            else:
                p2 = p + '#' + what
                if p2 not in info.mods:
                    new[p2] = ('field',)
        if new:
            info.mods.update(new)
            # signatures are relative to the set of modified objects
            info.sigs[:] = []
            info.dropped.clear()
            info.vdropped.clear()
            info.named.clear()
            info.used.clear()
            raise Restart()

    def by_path(self, fr, path):
        for p, o in self.access_paths(fr):
            if p == path:
                return o
        raise Unsupported('object %s is not reachable at the loop head' % path)

    def read_field(self, o, f):
        if isinstance(o, Func):
            return o.attrs[f]
        return o.fields[f]

    def write_field(self, o, f, v):
        if isinstance(o, Func):
            o.attrs[f] = v
        else:
            o.fields[f] = v
        self.wrote(o, f)

    # candidate invariants --------------------------------------------------------------
    def loop_values(self, ctx):
        """name -> value of the variables a candidate may speak about."""
        fr = ctx['fr']
        out = {}
        f = fr
        while f is not None:
            for k, v in f.vars.items():
                out.setdefault(k, v)
            f = f.parent
        for path, k in ctx['mods'].items():
            if k[0] == 'field':
                o = self.by_path(fr, path.rsplit('#', 1)[0])
                out[path] = self.read_field(o, path.rsplit('#', 1)[1])
        return out

    def atoms(self, vals):
        """Integer terms and views inside the values."""
        ints, views = {}, {}

        def visit(n, v, d=0):
            if isinstance(v, bool) or isinstance(v, SBool):
                return
            if isinstance(v, int):
                ints[n] = z3.IntVal(v)
            elif isinstance(v, SInt):
                ints[n] = v.t
            elif isinstance(v, SStr):
                if len(v.ps) == 1 and isinstance(v.ps[0], View):
                    views[n] = v.ps[0]
                elif len(v.ps) == 1 and isinstance(v.ps[0], OStr):
                    ints[n + '.len'] = v.ps[0].n
            elif isinstance(v, tuple) and d < 2:
                for i, x in enumerate(v):
                    visit('%s.%d' % (n, i), x, d + 1)
            elif isinstance(v, Obj):
                if isinstance(v.payload, SStr):
                    visit(n, v.payload, d + 1)
                    if isinstance(v.fields.get('pos'), (int, SInt)):
                        visit(n + '.pos', v.fields['pos'], d + 1)
                elif isinstance(v.payload, ListP) and v.payload.kind in ('tup', 'views'):
                    ints[n + '.n'] = v.payload.n
            elif isinstance(v, GenObj):
                for k, x in v.g.items():
                    visit('%s.%s' % (n, k), x, d + 1)
        for n, v in vals.items():
            visit(n, v)
        return ints, views

    def cands(self, ctx, s):
        """Named candidate invariants in the current state."""
        vals = {k: v for k, v in self.loop_values(ctx).items() if k not in ctx['dead']}
        ints, views = self.atoms(vals)
        eints, eviews = self.atoms({k: v for k, v in ctx['entry'].items()})
        fents, _ = self.atoms(ctx['entry_fields'])
        eints.update(fents)
        modn = set(ctx['shared']) | set(ctx['mods'])

        def is_mod(n):
            if n in modn:
                return True
            r = n.split('.')[0].split('#')[0]
            return r in modn
        out = []
        for n, t in sorted(ints.items()):
            if not is_mod(n):
                continue
            out.append(('%s>=0' % n, t >= 0))
            if n in eints and not z3.eq(t, eints[n]):
                out.append(('%s>=entry' % n, t >= eints[n]))
                out.append(('%s<=entry' % n, t <= eints[n]))
            elif n in eints:
                out.append(('%s>=entry' % n, z3.BoolVal(True)))
                out.append(('%s<=entry' % n, z3.BoolVal(True)))
        for n, v in sorted(views.items()):
            if not is_mod(n):
                continue
            if n in eviews and eviews[n].text is v.text:
                e = eviews[n]
                out.append(('%s.a>=entry' % n, v.a >= e.a))
                out.append(('%s.a<=entry' % n, v.a <= e.a))
                out.append(('%s.b==entry' % n, v.b == e.b))
            out.append(('%s.b==end' % n, v.b == v.text.n))
            if n + '.pos' in ints:
                out.append(('%s.pos' % n, ints[n + '.pos'] == v.a))
            out.append(('%s!empty' % n, v.a < v.b))
        names = sorted(ints)
        if len(names) <= 14:
            for i, n in enumerate(names):
                for m in names[i + 1:]:
                    if not (is_mod(n) or is_mod(m)) or '.pos' in n or '.pos' in m:
                        continue
                    out.append(('%s<=%s' % (n, m), ints[n] <= ints[m]))
                    out.append(('%s>=%s' % (n, m), ints[n] >= ints[m]))
        for n in names:
            if '.pos' in n:
                continue
            for w, v in sorted(views.items()):
                if not (is_mod(n) or is_mod(w)):
                    continue
                out.append(('%s<=len(%s)' % (n, w), ints[n] <= v.b - v.a))
                if w in eviews and eviews[w].text is v.text and is_mod(w):
                    out.append(('%s==adv(%s)' % (n, w), ints[n] == v.a - eviews[w].a))
                out.append(('%s>=len(%s)' % (n, w), ints[n] >= v.b - v.a))
        vn = sorted(views)
        for i, n in enumerate(vn):
            for m in vn[i + 1:]:
                if not (is_mod(n) or is_mod(m)) or views[n].text is not views[m].text:
                    continue
                x, y = views[n], views[m]
                out.append(('%s.a<=%s.a' % (n, m), x.a <= y.a))
                out.append(('%s.a>=%s.a' % (n, m), x.a >= y.a))
                out.append(('%s.b==%s.b' % (n, m), x.b == y.b))
                out.append(('%s.b==%s.a' % (n, m), x.b == y.a))
                out.append(('%s.a==%s.b' % (n, m), x.a == y.b))
        # non-arithmetic fields that do not change
        for n, v in sorted(vals.items()):
            if is_mod(n) and isinstance(v, Obj) and isinstance(v.payload, (str, SStr)) and 'input_file' in v.fields:
                e = ctx['entry'].get(n)
                if isinstance(e, Obj) and 'input_file' in e.fields:
                    q = self.eq(v.fields['input_file'], e.fields['input_file'])
                    out.append(('%s.file' % n, q.t if isinstance(q, SBool) else z3.BoolVal(q)))
            if is_mod(n) and isinstance(v, (bool, SBool)):
                t = v.t if isinstance(v, SBool) else z3.BoolVal(v)
                out.append(('%s' % n, t))
                out.append(('not %s' % n, z3.Not(t)))
        h = getattr(self, 'hints', None)
        if getattr(self, 'hints_only', False):
            out = []
        if h is not None:
            for n, f in h(self, ctx, vals, ints, views):
                out.append(('hint:' + n, f if not isinstance(f, bool) else z3.BoolVal(f)))
        return out

    def check_cands(self, ctx, s, when):
        info = ctx['info']
        dropped = info.dropped.setdefault(s, set())
        cs = self.cands(ctx, s)
        names = set(n for n, f in cs)
        named = info.named.get(s)
        info.named[s] = names if named is None else named & names
        unchecked = info.used.get(s, set()) - names - dropped
        if unchecked:
            # assumed at the head, but not even stated here
            dropped |= unchecked
            raise Restart()
        cs = [(n, f) for n, f in cs if n not in dropped]
        cs = [(n, f) for n, f in cs if not z3.is_true(z3.simplify(f))]
        if not cs:
            return
        key = ('k', tuple(self.trail), self.qn, when)
        self.qn += 1
        at = self.state(z3.And([f for _, f in cs]))
        if self.known(key, at):
            return
        bad = set()
        rest = list(cs)
        while rest:
            r, m, b, sv = self.full_check(z3.Not(z3.And([f for _, f in rest])), 4000)
            if r == 'unsat':
                break
            if r == 'sat':
                drop = [n for n, f in rest if not has_quant(f) and not z3.is_true(m.eval(f, model_completion=True))]
                if not drop:
                    r = 'unknown'
                else:
                    bad |= set(drop)
                    rest = [(n, f) for n, f in rest if n not in bad]
                    continue
            for n, f in rest:
                r, m, b, sv = self.full_check(z3.Not(f), 3000)
                if r != 'unsat':
                    bad.add(n)
            rest = [(n, f) for n, f in rest if n not in bad]
            break
        if bad:
            dropped |= bad
            if os.environ.get("DBGC"): print("DROP", when, ctx["key"], s, bad, r, "TRAIL", self.trail, {k: getattr(v, "payload", v) for k, v in ctx["fr"].vars.items()} if os.environ["DBGC"] == "2" else "")
            raise Restart()
        self.memo[key] = (True, at)
        for n, f in cs:
            if n.startswith('hint:') or True:
                ob = Obligation(self.cur, 'loop %s: %s %s' % (ctx['key'][1], n, when))
                ob.status, ob.backend, ob.trail = 'proved', 'z3', tuple(self.trail)
                self.obs.append(ob)

    # termination ------------------------------------------------------------------------
    def variants(self, ctx):
        vals = {k: v for k, v in self.loop_values(ctx).items() if k not in ctx['dead']}
        ints, views = self.atoms(vals)
        out = {}
        for n, v in sorted(views.items()):
            out['len(%s)' % n] = v.b - v.a
        names = sorted(n for n in ints if '.pos' not in n)
        for n in names:
            for m in names:
                if n != m:
                    out['%s-%s' % (m, n)] = ints[m] - ints[n]
            for w, v in sorted(views.items()):
                out['len(%s)-%s' % (w, n)] = v.b - v.a - ints[n]
            out[n] = ints[n]
        if ctx['idx'] and ctx['src'] is not None:
            out['%for'] = ctx['src'].n - ctx['fr'].vars[ctx['idx']].t
        return out

    def check_variant(self, ctx, v0, idxkey):
        v1 = self.variants(ctx)
        k = (self.cur, ctx['key'])
        ok = self.variants_ok.setdefault(k, None)
        names = [n for n in v0 if n in v1] if ok is None else [n for n in ok if n in v0 and n in v1]
        good = []
        for n in names:
            if good and n not in ('%for',) and len(good) >= 2:
                break
            if z3.eq(v0[n], v1[n]):
                continue
            if self.must(z3.And(v0[n] >= 0, v1[n] < v0[n])):
                good.append(n)
        if ok is None:
            # the remaining names may still be good elsewhere: recompute fully
            good = [n for n in names if n in good or self.must(z3.And(v0[n] >= 0, v1[n] < v0[n]))]
        self.variants_ok[k] = good

    def _check_variants(self):
        self.nonterminating = [k for k, v in self.variants_ok.items() if not v]
        if getattr(self, 'want_termination', False):
            for k, v in sorted(self.variants_ok.items(), key=str):
                ob = Obligation(self.cur, 'loop %s: terminates' % (k[1][1],))
                ob.status = 'proved' if v else 'unknown'
                ob.backend = 'z3'
                ob.trail = ()
                self.obs.append(ob)

    # -- expressions ------------------------------------------------------------------
    def ev(self, e):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expression ' + type(e).__name__)
        return m(e)

    def e_Constant(self, e):
        if isinstance(e.value, bytes):
            return SFloat(None) if False else self.bytes_const(e.value)
        return e.value

    def bytes_const(self, b):
        raise Unsupported('bytes')

    def e_Name(self, e):
        return self.lookup(e.id)

    def e_Tuple(self, e):
        return tuple(self.ev_items(e.elts))

    def ev_items(self, elts):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                src = self.iterate(self.ev(x.value))
                if not isinstance(src, list):
                    raise Unsupported('star of a symbolic sequence')
                out.extend(src)
            else:
                out.append(self.ev(x))
        return out

    def e_List(self, e):
        return self.new_list(self.ev_items(e.elts))

    def e_Set(self, e):
        return self.make_set([self.ev(x) for x in e.elts])

    def e_Dict(self, e):
        o = Obj(self.builtin_classes['dict'], DictP())
        for k, v in zip(e.keys, e.values):
            if k is None:
                raise Unsupported('** in a dict display')
            self.setitem(o, self.ev(k), self.ev(v))
        return o

    def e_Lambda(self, e):
        fr = self.frames[-1]
        return self.make_func(e, fr.module, fr, None, (fr.func.qual if fr.func else 'module') + '.<lambda>')

    def e_IfExp(self, e):
        c = self.truth(self.ev(e.test))
        if isinstance(c, bool):
            return self.ev(e.body if c else e.orelse)
        t = z3.simplify(c.t)
        if z3.is_true(t) or z3.is_false(t):
            return self.ev(e.body if z3.is_true(t) else e.orelse)
        if self.pure(e.body) and self.pure(e.orelse):
            a, b = self.ev(e.body), self.ev(e.orelse)
            if self.is_int(a) and self.is_int(b):
                x, y = self.it(a), self.it(b)
                # (x if x else 0) is x
                for p, q in ((x, y),):
                    if z3.eq(z3.simplify(t), z3.simplify(p != 0)) and z3.eq(z3.simplify(q), z3.IntVal(0)):
                        return SInt(p)
                return SInt(z3.If(t, x, y))
            return a if self.branch(t) else b
        return self.ev(e.body) if self.branch(t) else self.ev(e.orelse)

    def pure(self, e):
        """Evaluating this expression cannot fork, raise or have an effect."""
        if isinstance(e, (ast.Constant,)):
            return True
        if isinstance(e, ast.Name):
            return True
        if isinstance(e, ast.Attribute):
            if not isinstance(e.value, ast.Name):
                return False
            try:
                return isinstance(self.lookup(e.value.id), Slice)
            except (Unsupported, PyRaise):
                return False
        return False

    def e_BoolOp(self, e):
        is_and = isinstance(e.op, ast.And)
        vals = e.values
        acc = []
        for i, x in enumerate(vals):
            v = self.ev(x)
            last = i == len(vals) - 1
            if last:
                if acc:
                    if isinstance(v, (bool, SBool)):
                        t = self.bt(v)
                        return self.mkbool(z3.And(acc + [t]) if is_and else z3.Or(acc + [t]))
                    # a mixture: fork
                    if self.branch(z3.And(acc) if is_and else z3.Or(acc)) == is_and:
                        return v
                    return not is_and
                return v
            c = self.truth(v)
            if isinstance(v, (bool, SBool)) and all(self.pure_bool(y) for y in vals[i + 1:]):
                if isinstance(c, bool):
                    if c != is_and:
                        if acc:
                            return self.mkbool(z3.And(acc + [self.bt(c)]) if is_and else z3.Or(acc + [self.bt(c)]))
                        return c
                    continue
                acc.append(c.t)
                continue
            if acc:
                c = self.mkbool(z3.And(acc + [self.bt(c)]) if is_and else z3.Or(acc + [self.bt(c)]))
                acc = []
                b = self.branch(c)
                if b != is_and:
                    return b
                continue
            b = self.branch(c)
            if b != is_and:
                return v

    def pure_bool(self, e):
        """A boolean expression without effects whose evaluation cannot fork."""
        if isinstance(e, ast.Compare):
            return all(self.pure_int(x) for x in [e.left] + e.comparators) and \
                all(isinstance(o, (ast.Lt, ast.LtE, ast.Gt, ast.GtE, ast.Eq, ast.NotEq)) for o in e.ops)
        if isinstance(e, ast.BoolOp):
            return all(self.pure_bool(x) for x in e.values)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return self.pure_bool(e.operand)
        return False

    def pure_int(self, e):
        if isinstance(e, ast.Constant):
            return isinstance(e.value, int)
        if isinstance(e, ast.Name):
            try:
                return self.is_int(self.lookup(e.id))
            except (Unsupported, PyRaise):
                return False
        if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Add, ast.Sub)):
            return self.pure_int(e.left) and self.pure_int(e.right)
        return False

    def mkbool(self, t):
        t = z3.simplify(t)
        return True if z3.is_true(t) else False if z3.is_false(t) else SBool(t)

    def bt(self, v):
        return v.t if isinstance(v, SBool) else z3.BoolVal(bool(v))

    def is_int(self, v):
        return isinstance(v, (int, SInt)) and not isinstance(v, bool)

    def it(self, v):
        """z3 integer term of an int-like value."""
        if isinstance(v, SInt):
            return v.t
        if isinstance(v, bool):
            return z3.IntVal(1 if v else 0)
        if isinstance(v, int):
            return z3.IntVal(v)
        if isinstance(v, SBool):
            return z3.If(v.t, z3.IntVal(1), z3.IntVal(0))
        if isinstance(v, Obj) and self.is_int(v.payload):
            return self.it(v.payload)
        raise Unsupported('integer expected: %r' % (v,))

    def mkint(self, t):
        t = z3.simplify(t)
        if z3.is_int_value(t):
            return t.as_long()
        return SInt(t)

    def e_UnaryOp(self, e):
        v = self.ev(e.operand)
        if isinstance(e.op, ast.Not):
            c = self.truth(v)
            return (not c) if isinstance(c, bool) else SBool(z3.Not(c.t))
        if isinstance(e.op, ast.USub):
            if isinstance(v, (int, float)):
                return -v
            return SInt(-self.it(v))
        if isinstance(e.op, ast.UAdd) and (isinstance(v, (int, float, SInt))):
            return v
        raise Unsupported('unary operator')

    def e_BinOp(self, e):
        return self.binop(e.op, self.ev(e.left), self.ev(e.right))

    def e_Compare(self, e):
        left = self.ev(e.left)
        if len(e.ops) == 1:
            return self.compare(e.ops[0], left, self.ev(e.comparators[0]))
        res = []
        for op, c in zip(e.ops, e.comparators):
            right = self.ev(c)
            r = self.compare(op, left, right)
            if r is False:
                return False
            res.append(self.bt(self.truth(r)))
            left = right
        return self.mkbool(z3.And(res))

    def compare(self, op, a, b):
        if isinstance(op, ast.Is) or isinstance(op, ast.IsNot):
            r = self.identical(a, b)
            if isinstance(op, ast.IsNot):
                return (not r) if isinstance(r, bool) else SBool(z3.Not(r.t))
            return r
        if isinstance(op, ast.Eq):
            return self.eq(a, b)
        if isinstance(op, ast.NotEq):
            r = self.eq(a, b)
            return (not r) if isinstance(r, bool) else SBool(z3.Not(r.t))
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(b, a)
            if isinstance(op, ast.NotIn):
                return (not r) if isinstance(r, bool) else SBool(z3.Not(r.t))
            return r
        return self.order(op, a, b)

    def order(self, op, a, b):
        if isinstance(a, SClock) or isinstance(b, SClock):
            a, b = SClock.units(a), SClock.units(b)
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            return {ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b}[type(op)]
        if (self.is_int(a) or isinstance(a, (bool, SBool))) and (self.is_int(b) or isinstance(b, (bool, SBool))):
            x, y = self.it(a), self.it(b)
            return self.mkbool({ast.Lt: x < y, ast.LtE: x <= y, ast.Gt: x > y, ast.GtE: x >= y}[type(op)])
        h = getattr(self, 'order_other', None)
        if h:
            return h(self, op, a, b)
        if a is None or b is None:
            self.throw('TypeError', 'order of None')
        raise Unsupported('ordering of %r and %r' % (a, b))

    def identical(self, a, b):
        if a is None or b is None:
            if a is None and b is None:
                return True
            o = b if a is None else a
            if isinstance(o, Sym):
                return self.sym_isinst(o, self.builtin_classes['NoneType'])
            return False
        if isinstance(a, (Obj, Class, Func)) or isinstance(b, (Obj, Class, Func)):
            if isinstance(a, Sym) or isinstance(b, Sym):
                s, o = (a, b) if isinstance(a, Sym) else (b, a)
                if isinstance(o, Obj) and o.u is not None and z3.eq(o.u, s.u):
                    return True
                if isinstance(o, Class):
                    u = self.box(o)
                    self.assume(self.typ(u) == self.tag('type'))
                    return SBool(s.u == u)
                raise Unsupported('identity of an unknown object')
            return a is b
        if isinstance(a, Sym) and isinstance(b, Sym):
            return self.mkbool(a.u == b.u)
        if isinstance(a, bool) and isinstance(b, bool):
            return a is b
        if isinstance(a, Sym) or isinstance(b, Sym):
            s, o = (a, b) if isinstance(a, Sym) else (b, a)
            if isinstance(o, bool):
                return SBool(z3.And(self.typ(s.u) == self.tag('bool'), self.unboxB(s.u) == o))
        if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
            return self.mkbool(self.bt(a) == self.bt(b))
        if isinstance(a, (bool, SBool)) or isinstance(b, (bool, SBool)):
            return False
        raise Unsupported('is of %r, %r' % (a, b))

    def e_Attribute(self, e):
        return self.getattr(self.ev(e.value), e.attr)

    def ev_index(self, s):
        if isinstance(s, ast.Slice):
            return Slice(self.ev(s.lower) if s.lower else None, self.ev(s.upper) if s.upper else None,
                         self.ev(s.step) if s.step else None)
        return self.ev(s)

    def e_Subscript(self, e):
        o = self.ev(e.value)
        return self.getitem(o, self.ev_index(e.slice))

    def e_Call(self, e):
        fn = self.ev(e.func)
        # any()/all() over a generator expression: a loop with an early exit
        if isinstance(fn, Builtin) and fn.name in ('any', 'all') and len(e.args) == 1 \
                and isinstance(e.args[0], ast.GeneratorExp):
            return self.quantified(e.args[0], fn.name)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                src = self.iterate(self.ev(a.value))
                if not isinstance(src, list):
                    args.append(StarArg(('*', src)))
                    continue
                args.extend(src)
            else:
                args.append(self.ev(a))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                v = self.ev(k.value)
                if isinstance(v, Obj) and isinstance(v.payload, DictP) and v.payload.base is None:
                    for kk, vv in v.payload.items.items():
                        kw[kk] = vv
                    continue
                if isinstance(v, dict):
                    kw.update(v)
                    continue
                kw['**'] = v
                continue
            kw[k.arg] = self.ev(k.value)
        ln = self.lineno
        r = self.call(fn, args, kw)
        self.lineno = ln
        return r

    def comp_frame(self):
        fr = self.frames[-1]
        f = Frame(None, fr.module, fr)
        return f

    def comp(self, e, emit):
        """Run a comprehension; emit() is called for every element."""
        gens = e.generators
        outer = self.frames[-1]
        f = Frame(None, outer.module, outer)
        f.locals = set()

        def level(i):
            if i == len(gens):
                emit(f)
                return
            g = gens[i]
            src = self.iterate(self.ev(g.iter))

            def body():
                for c in g.ifs:
                    if not self.branch_truth(self.ev(c)):
                        raise Cont()
                level(i + 1)
            if isinstance(src, list):
                for x in src:
                    self.assign(g.target, x)
                    try:
                        body()
                    except Cont:
                        continue
                return
            if len(gens) > 1:
                raise Unsupported('nested comprehension over a symbolic sequence')
            node = ast.For(target=g.target, iter=g.iter, body=[ast.Expr(e.elt if not isinstance(e, ast.DictComp) else e.key)], orelse=[])
            node.hidden = {n for n in f.vars if n.startswith('%')}
            self.comp_nodes.setdefault(id(e), node)
            node = self.comp_nodes[id(e)]
            node.hidden = {n for n in f.vars if n.startswith('%')}
            fo = outer
            while fo is not None and fo.func is None:
                fo = fo.parent
            if fo is not None and id(node) not in self.fninfo(fo.func)['loops']:
                self.fninfo(fo.func)['loops'][id(node)] = self.fninfo(fo.func)['loops'].get(id(e), id(e))
            self.for_src(node, src, lambda v: self.assign(g.target, v), body, [node])
        self.frames.append(f)
        try:
            level(0)
        finally:
            self.frames.pop()
        return f

    comp_nodes = {}

    def map_value(self, v, f):
        """The value with f applied to its terms."""
        if v is None or isinstance(v, (bool, int, float, str)):
            return v
        if isinstance(v, SInt):
            return SInt(f(v.t))
        if isinstance(v, SBool):
            return SBool(f(v.t))
        if type(v) is SStr and all(isinstance(p, (str, OStr, View)) for p in v.ps):
            return SStr([p if isinstance(p, str) else OStr(f(p.u), f(p.n)) if isinstance(p, OStr) else View(p.text, f(p.a), f(p.b)) for p in v.ps])
        if isinstance(v, tuple):
            return tuple(self.map_value(x, f) for x in v)
        raise Unsupported('comprehension of these elements')

    def mapped(self, e):
        """A comprehension of one symbolic list without conditions: element k is the expression for
        element k (evaluated once, for any k; what was assumed about it is assumed again)."""
        g = e.generators[0]
        src = self.iterate(self.ev(g.iter))
        outer = self.frames[-1]
        f = Frame(None, outer.module, outer)
        self.frames.append(f)
        try:
            if isinstance(src, list):
                out = []
                for x in src:
                    self.assign(g.target, x)
                    out.append(self.ev(e.elt))
                return self.new_list(out)
            k0 = self.fint('k').t
            first = int(str(k0).rsplit('!', 1)[1])
            pc = self.pc
            self.pc = list(pc)
            n0, trail, w = len(pc), len(self.trail), len(self.wl())
            self.assume(z3.And(k0 >= 0, k0 < src.n))
            self.assign(g.target, src.get(k0))
            v = self.ev(e.elt)
            if len(self.trail) != trail or len(self.wl()) != w:
                raise Unsupported('comprehension with cases')
            facts = self.pc[n0:]
            self.pc = pc
            self.solver = None
            new = set()

            def look(t):
                for c in z3.z3util.get_vars(t):
                    m = str(c).rsplit('!', 1)
                    if len(m) == 2 and m[1].isdigit() and int(m[1]) > first and not z3.eq(c, k0):
                        new.add(str(c))
                return t
            self.map_value(v, look)
            for x in facts:
                look(x)
            if new:
                raise Unsupported('comprehension with values of its own')

            def get(k):
                k = k if isinstance(k, z3.ExprRef) else z3.IntVal(k)
                for x in facts:
                    self.assume(z3.substitute(x, (k0, k)))
                return self.map_value(v, lambda t: z3.simplify(z3.substitute(t, (k0, k))))
            self.map_value(v, lambda t: t)
            return Obj(self.builtin_classes['list'], ListP('fn', n=src.n, get=get))
        finally:
            self.frames.pop()

    def e_ListComp(self, e):
        if getattr(self, 'map_comp', False) and len(e.generators) == 1 and not e.generators[0].ifs:
            return self.mapped(e)
        res = self.new_list()

        def emit(f):
            self.list_method(res, 'append', [self.ev(e.elt)], {})
        outer = self.frames[-1]
        nm = '%%res%d' % e.col_offset
        outer.vars[nm] = res
        try:
            self.comp(e, emit)
        finally:
            outer.vars.pop(nm, None)
        return res

    def e_GeneratorExp(self, e):
        # consumed at once by every caller modelled here
        return self.e_ListComp(e)

    def e_SetComp(self, e):
        l = self.e_ListComp(e)
        return self.make_set(l.payload.items if l.payload.kind == 'conc' else None)

    def e_DictComp(self, e):
        h = getattr(self, 'dictcomp', None)
        if h is not None:
            r = h(self, e)
            if r is not NotImplemented:
                return r
        res = Obj(self.builtin_classes['dict'], DictP())

        def emit(f):
            self.setitem(res, self.ev(e.key), self.ev(e.value))
        self.comp(e, emit)
        return res

    def quantified(self, e, which):
        outer = self.frames[-1]
        found = [None]

        class Hit(Exception):
            pass

        def emit(f):
            b = self.branch_truth(self.ev(e.elt))
            if b == (which == 'any'):
                raise Brk()
        gens = e.generators
        if len(gens) != 1:
            raise Unsupported('any/all')
        g = gens[0]
        src = self.iterate(self.ev(g.iter))
        f = Frame(None, outer.module, outer)
        self.frames.append(f)
        try:
            def body():
                for c in g.ifs:
                    if not self.branch_truth(self.ev(c)):
                        return
                emit(f)
            if isinstance(src, list):
                for x in src:
                    self.assign(g.target, x)
                    try:
                        body()
                    except Brk:
                        return which == 'any'
                return which != 'any'
            node = self.comp_nodes.get(id(e))
            if node is None:
                node = self.comp_nodes[id(e)] = ast.For(target=g.target, iter=g.iter, body=[ast.Expr(e.elt)], orelse=[])
                fo = outer
                while fo is not None and fo.func is None:
                    fo = fo.parent
                if fo is not None:
                    self.fninfo(fo.func)['loops'][id(node)] = self.fninfo(fo.func)['loops'].get(id(e), id(e))
            fr = f
            key = '%idxq'
            fr.vars[key] = SInt(z3.IntVal(0))

            def test():
                return SBool(fr.vars[key].t < src.n)

            def body2():
                k = fr.vars[key].t
                self.assign(g.target, src.get(k))
                fr.vars[key] = SInt(k + 1)
                body()
            r = self.cut_loop(node, key, test, body2, [node], src)
            return (which == 'any') if r == 'break' else (which != 'any')
        finally:
            self.frames.pop()

    def e_JoinedStr(self, e):
        out = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                out.append(v.value)
            elif v.conversion not in (-1, 115) or v.format_spec is not None:
                self.ev(v.value)
                out.extend(self.ostr('fmt').ps)
            else:
                out.extend(self.str_of(self.ev(v.value)).ps)
        return self.mkstr(out)

    def e_Yield(self, e):
        v = self.ev(e.value) if e.value is not None else None
        f = self.frames[-1]
        if f.genspec is None:
            raise Unsupported('yield')
        return f.genspec(self, v)

    def e_Starred(self, e):
        raise Unsupported('starred')
