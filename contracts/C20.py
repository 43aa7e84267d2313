"""C20: a run depends on nothing left over.  Everything that functions of the preprocessor assign
outside themselves is collected from the source; before a run it holds marked values; after
yushell() and yuinit() nothing within reach of it is marked, and nothing was decided by a marked
value.  The state that is not assigned there is accounted for one by one, or the check does not
decide."""
import ast
import builtins
import z3
from pyvc.values import *
from pyvc import lang as L
from . import evalmodel as E
from . import osmodel as O

IntS, BoolS = z3.IntSort(), z3.BoolSort()
MARK = 'stale!'
OWNERS = ('yushell', 'feedback')
# options in force, and what does not reach the result
OPTIONS = ('config', 'shell')
NEUTRAL = {'trace': 'the trace', 'log': 'diagnostics', 'ps_string_python': 'regular expressions, constant once built (unit yuinit)',
           'traceback': 'libraries', 'sys': 'libraries', 'os': 'libraries'}
MODULES = ('pp.yugen', 'pp.yup')
MUT = {'append', 'extend', 'insert', 'add', 'update', 'setdefault', 'pop', 'popitem', 'remove', 'discard', 'clear', 'sort', 'reverse', 'appendleft', '__setitem__'}


def state(I):
    """Module-level state assigned by functions: {(owner, attribute)}, {global names}, and what is not
    understood."""
    attrs, names, odd = set(), set(), []
    for mn in MODULES:
        m = I.prog.module(mn)
        top = set()
        for st in m.tree.body:
            for t in ([st] if isinstance(st, (ast.FunctionDef, ast.ClassDef)) else st.targets if isinstance(st, ast.Assign) else []):
                top |= {t.name} if hasattr(t, 'name') else {n.id for n in ast.walk(t) if isinstance(n, ast.Name)}
        classes = {st.name for st in m.tree.body if isinstance(st, ast.ClassDef)}
        top |= {a.asname or a.name for st in m.tree.body if isinstance(st, (ast.Import, ast.ImportFrom)) for a in st.names}

        def locals_of(f):
            out = {a.arg for a in f.args.args + f.args.kwonlyargs + [x for x in (f.args.vararg, f.args.kwarg) if x]}
            glob = set()
            for n in ast.walk(f):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    out.add(n.id)
                elif isinstance(n, ast.Global):
                    glob |= set(n.names)
                elif isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n is not f:
                    out.add(n.name)
                elif isinstance(n, ast.ExceptHandler) and n.name:
                    out.add(n.name)
            return out - glob, glob

        def root(t):
            """The variable at the root of an expression, and the attribute next to it."""
            at = None
            while isinstance(t, (ast.Attribute, ast.Subscript)):
                at = t.attr if isinstance(t, ast.Attribute) else None if at is None else at
                t = t.value
            return (t.id, at) if isinstance(t, ast.Name) else (None, at)

        def changes(f, par):
            """Might the function change its parameter?  The empty environment has no variable to update."""
            for n in ast.walk(f):
                if isinstance(n, (ast.Attribute, ast.Subscript)) and not isinstance(n.ctx, ast.Load) and root(n)[0] == par and isinstance(n.value, ast.Name):
                    return True
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUT and isinstance(n.func.value, ast.Name) and n.func.value.id == par:
                    return True
            return False

        def visit(f, cls, outer):
            loc, glob = locals_of(f)
            loc |= outer
            names.update(glob)
            for d in f.decorator_list:
                if 'cache' in ast.dump(d).lower():
                    odd.append('%s is cached' % f.name)
            for g, d, par in [(g, d, par) for g in ast.walk(f) if isinstance(g, ast.FunctionDef) for d, par in list(zip(g.args.defaults, g.args.args[len(g.args.args) - len(g.args.defaults):]))
                              + [(x, y) for x, y in zip(g.args.kw_defaults, g.args.kwonlyargs) if x]]:
                if ast.unparse(d) == 'ENV()' and not changes(g, par.arg):
                    continue
                if not isinstance(d, (ast.Constant, ast.Name, ast.Attribute, ast.UnaryOp, ast.BinOp, ast.Lambda)) and not (isinstance(d, ast.Tuple) and not d.elts):
                    odd.append('%s has a mutable default' % g.name)
            for n in ast.walk(f):
                ts = []
                if isinstance(n, (ast.Assign, ast.Delete)):
                    ts = n.targets
                elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
                    ts = [n.target]
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUT:
                    ts = [n.func]
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'setattr':
                    odd.append('setattr in %s' % f.name)
                for t in [x for t in ts for x in (t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t])]:
                    if isinstance(t, ast.Name):
                        continue
                    r, at = root(t)
                    if isinstance(n, ast.Call):
                        at = root(t.value)[1] if isinstance(t.value, (ast.Attribute, ast.Subscript)) else None
                    if r is None or r in loc and r not in ('cls',):
                        if r in loc and cls and at and r == 'cls':
                            attrs.add((cls, at))
                        continue
                    if r == 'cls' and cls:
                        attrs.add((cls, at))
                    elif r in top:
                        if at is None:
                            names.add(r)
                        else:
                            attrs.add((r, at))
                    elif not hasattr(builtins, r):
                        # a module of the library or a name of another module of the preprocessor
                        names.add(r) if at is None else attrs.add((r, at))

        def walk(body, cls=None):
            for st in body:
                if isinstance(st, ast.FunctionDef):
                    visit(st, cls, set())
                elif isinstance(st, ast.ClassDef):
                    walk(st.body, st.name)
        walk(m.tree.body)
        for st in m.tree.body:
            if isinstance(st, ast.ClassDef):
                for s in st.body:
                    if isinstance(s, ast.Assign) and isinstance(s.value, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp)) and (st.name, s.targets[0].id) not in attrs:
                        odd.append('%s.%s is mutable' % (st.name, s.targets[0].id))
    return attrs, names, odd


def stale(v, seen=None):
    """Is a marked value within reach of v?"""
    seen = set() if seen is None else seen
    if isinstance(v, z3.ExprRef):
        todo = [v]
        while todo:
            t = todo.pop()
            if t.get_id() in seen:
                continue
            seen.add(t.get_id())
            if z3.is_quantifier(t):
                todo.append(t.body())
                continue
            if z3.is_app(t):
                if t.decl().name().startswith(MARK):
                    return True
                todo += t.children()
        return False
    if v is None or isinstance(v, (str, int, float, bool, bytes)):
        return False
    if id(v) in seen:
        return False
    seen.add(id(v))
    if isinstance(v, (tuple, list, set, frozenset)):
        return any(stale(x, seen) for x in v)
    if isinstance(v, dict):
        return any(stale(x, seen) for kv in v.items() for x in kv)
    if isinstance(v, (SInt, SBool)):
        return stale(v.t, seen)
    if isinstance(v, SStr):
        return any(stale(p, seen) for p in v.ps)
    if isinstance(v, OStr):
        return stale(v.u, seen) or stale(v.n, seen)
    if isinstance(v, View):
        return v.text.name.startswith(MARK) or stale(v.a, seen) or stale(v.b, seen)
    if isinstance(v, Sym):
        return stale(v.u, seen)
    if isinstance(v, Obj):
        if v.ghost.get('stale'):
            return True
        if v.ghost.get('clean'):
            return False
        return stale(v.payload, seen) or stale(v.fields, seen) or stale(v.ghost.get('pairs', ()), seen)
    if isinstance(v, ListP):
        if v.kind == 'fn':
            return stale(v.n, seen) or stale(v.get(z3.Int('k!any')), seen)
        return any(stale(x, seen) for x in vars(v).values() if not callable(x))
    if isinstance(v, DictP):
        return stale(v.items, seen) or v.base is not None and stale(vars(v.base), seen)
    return False


def watch(I):
    """No decision by a marked value."""
    branch = type(I).branch

    def b(c):
        t = c.t if isinstance(c, SBool) else c
        if isinstance(t, z3.ExprRef) and stale(t):
            I.oblige('no decision by what a run before left', False)
        return branch(I, c)
    I.branch = b


def marked(I, name):
    """Something left over: any value."""
    return I.sym(None, u=z3.Const(MARK + name, U))


def table(I, initial):
    """The functions and constants: nothing is read or added before it is cleared."""
    t = Obj(I.builtin_classes['dict'], DictP({}))
    t.ghost['stale'] = True

    def clear(I, o, a, kw):
        I.cover('cleared')
        o.ghost['stale'] = False
        o.ghost['clean'] = True

    def update(I, o, a, kw):
        I.oblige('no table is mixed with what a run before left in it', not o.ghost['stale'])
        I.oblige('nothing left over is entered', all(x is initial or not stale(x) for x in list(a) + list(kw.values())))
        if any(x is initial for x in a):
            o.ghost['initial'] = True

    def setitem(I, o, k, v):
        I.oblige('no table is mixed with what a run before left in it', not o.ghost['stale'])
        I.oblige('nothing left over is entered', not stale(k) and not stale(v))

    def no(what):
        def f(I, *a):
            if a[0].ghost['stale']:
                I.oblige('what a run before left is not consulted', False)
            raise Unsupported(what)
        return f
    t.ghost.update(volatile=True, setitem=setitem, contains=no('contains'), getitem=no('getitem'), delitem=no('delitem'), iter=no('iter'))
    t.ghost['methods'] = dict(clear=clear, update=update)
    for n in ('get', 'pop', 'items', 'keys', 'values', 'copy', 'setdefault', 'popitem'):
        t.ghost['methods'][n] = no(n)
    return t


SPLIT, LEFT, RIGHT, REST, ATOMF = (z3.Function('option ' + n, *s) for n, s in (('has a value', (U, BoolS)), ('name', (U, U)), ('value', (U, U)), ('rest', (U, U)), ('atom', (U, U))))


def opaque(I, u, low=0):
    n = I.strlenU(u)
    I.assume(n >= low)
    return SStr([OStr(u, n)])


def paths(I):
    """Names of files as they are: results of functions of names."""
    def fun(n, k=1):
        f = z3.Function('os.path.' + n, *([U] * (k + 1)))
        return Builtin(n, lambda I, a, kw: opaque(I, f(*[I.box(I.strval(x)) for x in a])))
    for n in ('basename', 'dirname', 'realpath', 'abspath', 'normpath'):
        I.overrides['os.path.' + n] = fun(n)
    I.overrides['os.path.join'] = fun('join', 2)
    root, ext = (z3.Function('os.path.splitext.' + n, U, U) for n in ('root', 'ext'))

    def splitext(I, a, kw):
        u = I.box(I.strval(a[0]))
        return (opaque(I, root(u)), opaque(I, ext(u)))
    I.overrides['os.path.splitext'] = Builtin('splitext', splitext)
    I.overrides['__file__'] = '/yupp/pp/yugen.py'

    def symkey(I, o, k, v):
        # only what is in the table matters
        no = lambda I, *a: unsupported('a table with unknown keys')
        o.ghost.setdefault('pairs', []).append((k, v))
        o.ghost.update(volatile=True, contains=no, getitem=no, delitem=no, iter=no)
        return True
    I.dict_symkey = symkey


def unsupported(what):
    raise Unsupported(what)


def run(named):
    def unit(I):
        def body(I):
            paths(I)
            I.overrides['ast.NodeVisitor'] = Class('NodeVisitor', [I.builtin_classes['object']], {}, builtin=True)
            m = I.prog.module('pp.yugen')
            attrs, names, odd = state(I)
            ys, fb, conf, sp = (I.module_get(m, n) for n in ('yushell', 'feedback', 'config', 'ps_string_python'))
            result = I.module_get(m, 'RESULT')
            ys.attrs = {a: marked(I, 'yushell.' + a) for o, a in attrs if o == 'yushell'}
            fb.attrs = {a: marked(I, 'feedback.' + a) for o, a in attrs if o == 'feedback'}
            I.class_attrs = True
            for o, a in attrs:
                if o == 'RESULT':
                    result.attrs[a] = marked(I, 'RESULT.' + a)
            # options in force
            n, nd = I.fint('options').t, I.fint('directories').t
            I.assume(z3.And(n >= 0, nd >= 0))
            OPT, DIR = z3.Function('option', IntS, U), z3.Function('directory', IntS, U)
            dirs = Obj(I.builtin_classes['list'], ListP('fn', n=nd, get=lambda k: opaque(I, DIR(k))))
            defs = Obj(I.builtin_classes['list'], ListP('fn', n=n, get=lambda k: opaque(I, OPT(k))))
            conf.attrs = dict(conf.attrs, pp_define=defs, directory=dirs, pp_skip_comments=I.fint('skip comments'), pp_browse=I.fbool('browse'), passage=I.fint('passage'),
                              pp_trim_app_indent=I.fbool('trim'), pp_reduce_emptiness=I.fbool('reduce'), warn_unbound_application=I.fbool('warn'))
            before = dict(conf.attrs)
            initial = Obj(I.builtin_classes['dict'], DictP({}, Map.any(I, 'initial')))
            tab = table(I, initial)
            I.overrides['builtin'], I.overrides['_builtin_initial'] = tab, initial

            def split(I, s, a):
                if len(s.ps) == 1 and isinstance(s.ps[0], OStr) and a and a[0] == ':':
                    u = s.ps[0].u
                    if I.branch(SPLIT(u)):
                        return I.new_list([opaque(I, LEFT(u)), opaque(I, RIGHT(u))])
                    return I.new_list([s])
                return NotImplemented
            I.split_hook = split

            def atom(I, a, kw):
                s = I.strval(a[0])
                u = I.box(s)
                if I.choose(2):
                    return (a[0], None)
                return (opaque(I, REST(u)), I.sym(['ATOM'], u=ATOMF(u)))
            I.overrides['ps_atom'] = Builtin('ps_atom', atom)
            I.overrides['log.warn'] = Builtin('warn', lambda I, a, kw: None)
            I.overrides['_unify_eol'] = Builtin('_unify_eol', lambda I, a, kw: opaque(I, z3.Function('unified', U, U)(I.box(I.strval(a[0])))))
            log = Obj(I.builtin_classes['object'])
            log.ghost['methods'] = {w: (lambda I, o, a, kw: None) for w in ('warn', 'warning', 'info', 'debug', 'error')}
            I.overrides['log'] = log
            known = I.choose(2)
            regexps(I, sp, known)
            watch(I)
            text = I.ostr('text')
            if named:
                fn, fo = opaque(I, I.fu('input'), 1), opaque(I, I.fu('output'), 1)
            else:
                fn = fo = None
            I.run_func(ys, [text, fn, fo], {})
            I.run_func(I.module_get(m, 'yuinit'), [], {})
            I.cover('initialised')
            for own, f in (('yushell', ys), ('feedback', fb), ('RESULT', result)):
                for o, a in sorted(attrs):
                    if o != own:
                        continue
                    v = f.attrs.get(a)
                    if stale(v) and (o, a) not in KNOWN:
                        raise Unsupported('a state that is not known: %s.%s' % (o, a))
                    I.oblige('%s.%s is that of this run' % (o, a), not stale(v))
            ground = lambda v: v is None or isinstance(v, (str, int)) or isinstance(v, tuple) and all(ground(x) for x in v) or isinstance(v, SInt) and z3.is_int_value(z3.simplify(v.t))
            for a, v in sorted(sp.attrs.items()):
                if not ground(v):
                    raise Unsupported('ps_string_python.%s: %r' % (a, v))
                I.oblige('the regular expressions of string literals are constant', True)
            I.oblige('the functions and constants are those of this run', not tab.ghost['stale'])
            I.oblige('the built-in functions and constants are there', bool(tab.ghost.get('initial')))
            # a list of this run is not one of the options
            for a, v in before.items():
                I.oblige('the option %s is not changed' % a, conf.attrs.get(a) is v)
            for o, what in I.wl():
                I.oblige('the lists of options are not changed', o is not dirs and o is not defs and o is not initial)
            seen = [v for v in ys.attrs.values() if isinstance(v, Obj)]
            I.oblige('no list of the run is a list of the options', all(v is not dirs and v is not defs for v in seen))
        return I.verify('run', body)
    return unit


KNOWN = {('yushell', a) for a in ('input_file', 'output_file', 'output_python', 'source', 'script', 'inclusion', 'module', 'directory', 'hazard', 'pp_skip_comments', 'shrink')} | \
    {('feedback', 'output_file'), ('feedback', 'repeat'), ('RESULT', 'files')}
RE = {}


def regexps(I, sp, known):
    """The regular expressions of string literals: not built yet, or those built before."""
    I.overrides['re.compile'] = Builtin('compile', lambda I, a, kw: ('regexp', I.strval(a[0]), tuple(a[1:]) + tuple(sorted(kw.items()))))
    at = dict(sp.attrs)
    at['initialized'] = bool(known)
    for a in RE:
        at[a] = RE[a] if known else None
    sp.attrs = at


def accounted(I):
    """Every state that functions assign is one of the above."""
    def body(I):
        attrs, names, odd = state(I)
        I.cover('state')
        for o, a in sorted(attrs):
            if o in OWNERS or o == 'RESULT' or o in OPTIONS or o in NEUTRAL or (o, a) in (('_filter', 'empty'), ('sys', 'modules')):
                continue
            raise Unsupported('a state that is not known: %s.%s' % (o, a))
        for n in sorted(names):
            if n not in ('builtin', 'TRACE_TO_FILE', 'config', 'feedback', 'yushell', 'trace', 'log', 'shell', 'os'):
                raise Unsupported('a state that is not known: %s' % n)
        for x in odd:
            raise Unsupported(x)
        for st in I.prog.module('pp.yugen').tree.body:
            if isinstance(st, ast.Assign) and ast.unparse(st.targets[0]) == '_builtin_initial':
                if isinstance(st.value, ast.Name):
                    I.oblige('the initial table is one of its own', False)
                elif ast.unparse(st.value) not in ('dict(builtin)', 'builtin.copy()', '{**builtin}', 'copy.copy(builtin)', 'dict(**builtin)'):
                    raise Unsupported('_builtin_initial')
        I.oblige('every state outside functions is reset, an option, or constant', True)
    return I.verify('state', body)


def order(which):
    """Nothing is preprocessed before the state is reset."""
    def unit(I):
        def body(I):
            O.install(I)
            I.overrides['ast.NodeVisitor'] = Class('NodeVisitor', [I.builtin_classes['object']], {}, builtin=True)
            m = I.prog.module('pp.yup')
            log = []

            def step(n, val=None):
                def f(I, a, kw):
                    if n == '_pp':
                        I.oblige('a text is preprocessed in a state of its own', log[-2:] == ['yushell', 'yuinit'])
                    if n == 'yuinit':
                        I.oblige('the state is initialised for the file', log[-1:] == ['yushell'])
                    log.append(n)
                    return val() if val else None
                return f
            ok = I.fbool('ok')
            plain = I.ostr('plain')
            ysf = I.module_get(m, 'yushell')
            fb = I.module_get(m, 'feedback')
            y2 = Builtin('yushell', step('yushell'))
            y2.attrs = dict(getattr(ysf, 'attrs', {}), shrink=I.fint('shrink'))
            I.overrides['yushell'] = y2
            fb.attrs = dict(fb.attrs, output_file=None, repeat=I.fbool('repeat'))
            I.overrides['yuinit'] = Builtin('yuinit', step('yuinit'))
            I.overrides['_pp'] = Builtin('_pp', step('_pp', lambda: (ok, plain)))
            for n in ('shell_backup', 'shell_savetofile', 'print'):
                I.overrides[n] = Builtin(n, lambda I, a, kw: None)
            I.overrides['stat.S_IREAD'] = 256
            I.overrides['os.chmod'] = Builtin('chmod', lambda I, a, kw: None)
            sh = I.module_get(m, 'shell')
            sh.attrs = dict(sh.attrs, read_only=I.fbool('read only'), quiet=True, type_output=False)
            f = Obj(I.builtin_classes['object'])
            f.ghost['methods'] = {'read': lambda I, o, a, kw: opaque(I, I.fu('text'))}
            lg = Obj(I.builtin_classes['object'])
            lg.ghost['methods'] = {w: (lambda I, o, a, kw: None) for w in ('warn', 'warning', 'info', 'debug', 'error', 'critical')}
            I.overrides['log'] = lg
            args = {'_pp_stream': [f, SStr([L.piece(I, 'fn', '[a-z]+'), '.c']), SStr([L.piece(I, 'fo', '[a-z]+'), '.c'])],
                    '_pp_text': [opaque(I, I.fu('text')), None], '_pp_test': [SStr([L.piece(I, 'text', '[a-z]+')])]}[which]
            I.run_func(I.module_get(m, which), args, {})
            I.cover('done')
            I.oblige('the text is preprocessed at most once', log.count('_pp') <= 1)
        return I.verify(which, body)
    return unit


def fresh_module(I):
    """A script is executed in a module that did not exist, and other modules remain."""
    def body(I):
        name = opaque(I, I.fu('module'), 1)
        sc = I.new('STR', opaque(I, I.fu('script'), 1))
        sc.fields.update(input_file=I.ostr('file'), pos=I.fint('pos'))
        I.overrides['ast.NodeVisitor'] = Class('NodeVisitor', [I.builtin_classes['object']], {}, builtin=True)
        I.overrides['_loc'] = Builtin('_loc', lambda I, a, kw: I.ostr('loc'))
        I.overrides['_loc_repr'] = Builtin('_loc_repr', lambda I, a, kw: I.ostr('loc'))
        I.overrides['os.path.isfile'] = Builtin('isfile', lambda I, a, kw: True)
        I.overrides['raise_'] = Builtin('raise_', lambda I, a, kw: I.throw('SyntaxError', 'ps_import'))
        m = I.prog.module('pp.yugen')
        ys = I.module_get(m, 'yushell')
        ys.attrs = dict(ys.attrs, directory=I.new_list([]), script=I.new_list([]))
        other = I.sym(None, 'another module')
        I.assume(I.typ(other.u) != I.tag('NoneType'))
        was = [None, other][I.choose(2)]
        table = {'now': was}
        absent = object()

        def at(I, k):
            I.oblige('the module is that of the script', I.bt(I.eq(k, name)))

        def pop(I, o, a, kw):
            at(I, a[0])
            v, table['now'] = table['now'], None
            if v is None:
                if len(a) < 2:
                    I.throw('KeyError', 'pop')
                return a[1]
            return v

        def get(I, o, a, kw):
            at(I, a[0])
            return table['now'] if table['now'] is not None else a[1] if len(a) > 1 else None

        def setitem(I, o, k, v):
            at(I, k)
            table['now'] = v

        def delitem(I, o, k):
            at(I, k)
            if table['now'] is None:
                I.throw('KeyError', 'del')
            table['now'] = None

        def getitem(I, o, k):
            at(I, k)
            if table['now'] is None:
                I.throw('KeyError', 'getitem')
            return table['now']

        def contains(I, o, k):
            at(I, k)
            return table['now'] is not None
        mods = Obj(I.builtin_classes['dict'], DictP({}))
        mods.ghost.update(volatile=True, setitem=setitem, delitem=delitem, getitem=getitem, contains=contains, methods={'pop': pop, 'get': get})
        I.overrides['sys.modules'] = mods
        mod = Obj(I.builtin_classes['object'])

        def load(I, a, kw):
            at(I, a[0])
            I.cover('executed')
            I.oblige('a script is executed in a module of its own, nothing of another in it', table['now'] is None)
            if I.choose(2):
                table['now'] = None
                I.throw(('OSError', 'ZeroDivisionError')[I.choose(2)], 'load')
            table['now'] = mod
            return mod
        I.overrides['imp.load_source'] = Builtin('load_source', load)
        names = Obj(I.builtin_classes['dict'], DictP({}))
        I.overrides['vars'] = Builtin('vars', lambda I, a, kw: names)
        b = Obj(I.builtin_classes['dict'], DictP({}))
        b.ghost['methods'] = {'update': lambda I, o, a, kw: None}
        I.overrides['builtin'] = b
        try:
            I.run_func(I.module_get(m, '_import_python'), [name, sc], {})
            I.cover('imported')
        except PyRaise:
            I.cover('failed')
        if was is not None:
            I.oblige('a module that was there remains', table['now'] is was)
    return I.verify('_import_python', body)


UNITS = [('state', accounted), ('run of a file', run(True)), ('run of a text', run(False))] + [(n, order(n)) for n in ('_pp_stream', '_pp_text', '_pp_test')] + \
    [('_import_python', fresh_module)]
TRUSTED = ['os.path as modelled (contracts/osmodel.py)', 'ps_atom and _unify_eol by contract: functions of their argument', 'imp.load_source executes a script in the module of the name, or in a new one if there is none']
ASSUMPTIONS = ['the environment yueval has by default stays empty: assignments change variables where they are (C10, C11)', 'options in force are those _pp_configure sets (C21)', 'user scripts change nothing of the preprocessor', 'trees and values of a run are not kept: no state but that of unit "state" outlives a run']
