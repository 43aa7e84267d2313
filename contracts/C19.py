"""C19: the search of imported files and the table of what has been imported, for any name, any
number of directories and any file system.  The import forms use them as they should."""
import z3
from pyvc.values import *
from pyvc import lang as L
from . import evalmodel as E
from . import osmodel as O
from . import C10

IntS, BoolS = z3.IntSort(), z3.BoolSort()
DIR = z3.Function('directory', IntS, U)
ISFILE = z3.Function('is a file', U, BoolS)
JOIN = z3.Function('path in directory', U, U, U)
TEXT = z3.Function('contents', U, U)
RAW = z3.Function('contents as they are', U, U)
UNIFY = z3.Function('unified', U, U)


def opaque(I, name, u=None, low=0):
    n = I.fint(name + '.len').t
    I.assume(n >= low)
    return SStr([OStr(I.fu(name) if u is None else u, n)])


def key(I, v):
    s = I.strval(v)
    if not (isinstance(s, SStr) and len(s.ps) == 1 and isinstance(s.ps[0], OStr)):
        raise Unsupported('a name of unknown origin')
    return s.ps[0].u


class Files:
    """The search path, the files, and what the outcome of the search must be."""

    def __init__(self, I, name):
        self.I, self.name = I, name
        self.n = I.fint('directories').t
        I.assume(self.n >= 0)
        self.u = key(I, name)
        I.overrides['ast.NodeVisitor'] = Class('NodeVisitor', [I.builtin_classes['object']], {}, builtin=True)
        I.overrides['os.path.isfile'] = Builtin('isfile', lambda I, a, kw: SBool(ISFILE(key(I, a[0]))))
        I.overrides['os.path.join'] = Builtin('join', self.join)
        I.overrides['_loc'] = Builtin('_loc', lambda I, a, kw: I.ostr('loc'))
        I.overrides['_loc_repr'] = Builtin('_loc_repr', lambda I, a, kw: I.ostr('loc'))
        I.overrides['raise_'] = Builtin('raise_', self.raise_)
        self.ys = I.module_get(I.prog.module('pp.yugen'), 'yushell')
        self.ys.attrs = dict(self.ys.attrs, directory=Obj(I.builtin_classes['list'], ListP('fn', n=self.n, get=lambda k: opaque(I, 'd', DIR(k)))))
        I.hints = self.hints

    def raise_(self, I, a, kw):
        raise PyRaise(a[0] if isinstance(a[0], Class) else I.builtin_classes['Exception'], (I.ostr('message'),))

    def join(self, I, a, kw):
        if len(a) != 2:
            raise Unsupported('join')
        return opaque(I, 'path', JOIN(key(I, a[0]), key(I, a[1])), 1)

    def at(self, k):
        return JOIN(DIR(k), self.u)

    def none_before(self, t):
        k = z3.Int('k!q')
        return z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < t), z3.Not(ISFILE(self.at(k)))))

    def hints(self, I, ctx, vals, ints, views):
        out = []
        for v, t in sorted(ints.items()):
            out.append(('%s directories searched in vain' % v, self.none_before(t)))
            out.append(('all but the last of %s directories searched in vain' % v, self.none_before(t - 1)))
            out.append(('no file of the name before %s' % v, z3.Implies(t > 0, z3.Not(ISFILE(self.u)))))
            out.append(('%s is within the directories' % v, z3.And(0 <= t, t <= self.n)))
            for w, s in sorted(vals.items()):
                s = I.strval(s) if isinstance(s, (Obj, SStr)) else None
                if isinstance(s, SStr) and len(s.ps) == 1 and isinstance(s.ps[0], OStr):
                    out.append(('%s: the name, or that in directory %s' % (w, v), s.ps[0].u == z3.If(t == 0, self.u, self.at(t - 1))))
        return out

    def found(self, I, u):
        """u is the first file found."""
        k = I.fint('found').t
        some = z3.Int('k!s')
        I.oblige('the file of the name in the working directory, if there is one', z3.Implies(ISFILE(self.u), u == self.u))
        # the first directory that has it
        has = z3.And(0 <= k, k < self.n, ISFILE(self.at(k)), self.none_before(k))
        I.oblige('otherwise the first one found in the directories', z3.Implies(z3.And(z3.Not(ISFILE(self.u)), has), u == self.at(k)))
        I.ghost['none'] = z3.And(z3.Not(ISFILE(self.u)), self.none_before(self.n))


def source(I):
    def body(I):
        lib = I.new(['STR', 'SOURCE'][I.choose(2)], opaque(I, 'lib', None, 1))
        lib.fields.update(input_file=I.ostr('file'), pos=I.fint('pos'))
        F = Files(I, lib)
        once = [True, False][I.choose(2)]
        known = I.fbool('already imported')
        sets, opened, reads = [], [], []
        src = Obj(I.builtin_classes['dict'], DictP({}))

        def contains(I, o, x):
            I.oblige('the name looked up is that of the library', key(I, x) == F.u)
            return known
        src.ghost.update(contains=contains, setitem=lambda I, o, k, v: sets.append((k, v)))
        F.ys.attrs['source'] = src

        def opn(I, a, kw_):
            kw = kw_
            u = key(I, a[0])
            # a file opened as text has the ends of lines unified
            I.assume(z3.And(UNIFY(TEXT(u)) == TEXT(u), UNIFY(RAW(u)) == TEXT(u)))
            F.found(I, u)
            opened.append(u)
            mode = a[1] if len(a) > 1 else kw.get('mode', 'r')
            I.oblige('the file is only read', mode in ('r', 'rt'))
            if I.branch(z3.Not(ISFILE(u))):
                I.throw('OSError', 'open')
            if I.choose(2):
                I.throw('OSError', 'open')
            f = Obj(I.builtin_classes['object'])

            def read(I, o, a, kw):
                whole(a)
                reads.append(u)
                if I.choose(2):
                    I.throw('UnicodeDecodeError', 'read')
                raw = kw_.get('newline', None) is not None
                return opaque(I, 'contents', RAW(u) if raw else TEXT(u))
            f.ghost['methods'] = {'read': read, 'close': lambda I, o, a, kw: None}
            f.ghost['enter'] = lambda I, o: o
            f.ghost['exit'] = lambda I, o: None
            return f
        I.overrides['open'] = Builtin('open', opn)
        I.overrides['_unify_eol'] = Builtin('_unify_eol', lambda I, a, kw: opaque(I, 'text', UNIFY(key(I, a[0]))))
        m = I.prog.module('pp.yugen')
        try:
            r = I.run_func(I.module_get(m, '_import_source'), [lib, once], {})
        except PyRaise:
            I.oblige('a failure leaves no entry', not sets)
            I.oblige('an imported library is not read again', z3.Not(z3.And(z3.BoolVal(once), known.t)))
            I.cover('failed')
            return
        if not opened:
            I.cover('again')
            I.oblige('nothing is read only if a library has been imported', z3.And(z3.BoolVal(once), known.t))
            empty = I.module_get(m, 'SOURCE_EMPTY')
            I.oblige('a library imported again is empty', I.strval(r) == empty if isinstance(I.strval(r), str) else False)
            I.oblige('the table is unchanged', not sets)
            return
        I.cover('read')
        I.oblige('a library is imported once', z3.Not(z3.And(z3.BoolVal(once), known.t)))
        I.oblige('one file is read, once', len(opened) == 1 and len(reads) == 1)
        I.oblige('the file exists', z3.Not(I.ghost['none']))
        I.oblige('one entry is made', len(sets) == 1)
        k, v = sets[0]
        I.oblige('under the name', key(I, k) == F.u)
        if not (isinstance(v, tuple) and len(v) == 2):
            I.oblige('an entry is a path and a text', False)
        I.oblige('the entry has the path', key(I, v[0]) == opened[0])
        I.oblige('the entry has the text of the file', key(I, v[1]) == TEXT(opened[0]))
        I.oblige('the name of the entry is returned', key(I, r) == F.u)
    return I.verify('_import_source', body)


def script(I):
    def body(I):
        name = opaque(I, 'module', None, 1)
        sc = I.new('STR', opaque(I, 'script', None, 1))
        sc.fields.update(input_file=I.ostr('file'), pos=I.fint('pos'))
        F = Files(I, sc)
        known = I.fbool('already executed')
        added, ran, updated = [], [], []
        scr = Obj(I.builtin_classes['list'], ListP('fn', n=I.fint('scripts').t, get=lambda k: opaque(I, 's')))
        I.assume(scr.payload.n >= 0)

        def contains(I, o, x):
            I.oblige('the name looked up is that of the script', key(I, x) == F.u)
            return known
        scr.ghost.update(contains=contains, append=lambda I, o, x: added.append(x))
        F.ys.attrs['script'] = scr
        mods = Obj(I.builtin_classes['dict'], DictP({}))
        mods.ghost.update(volatile=True, setitem=lambda I, o, k, v: None, delitem=lambda I, o, k: None, contains=lambda I, o, k: I.fbool('module'),
                          methods={'pop': lambda I, o, a, kw: I.sym(None, 'module') if I.choose(2) else None, 'get': lambda I, o, a, kw: I.sym(None, 'module') if I.choose(2) else None})
        I.overrides['sys.modules'] = mods
        mod = Obj(I.builtin_classes['object'])
        names = Obj(I.builtin_classes['dict'], DictP({}))

        def load(I, a, kw):
            u = key(I, a[1])
            F.found(I, u)
            ran.append(u)
            if I.branch(z3.Not(ISFILE(u))):
                I.throw('OSError', 'load')
            if I.choose(2):
                I.throw(('OSError', 'ZeroDivisionError')[I.choose(2)], 'load')
            return mod
        I.overrides['imp.load_source'] = Builtin('load_source', load)

        def vars_(I, a, kw):
            I.oblige('the names are those of the script', a[0] is mod)
            return names
        I.overrides['vars'] = Builtin('vars', vars_)
        b = Obj(I.builtin_classes['dict'], DictP({}))
        b.ghost['methods'] = {'update': lambda I, o, a, kw: updated.append(a[0])}
        I.overrides['builtin'] = b
        m = I.prog.module('pp.yugen')
        try:
            I.run_func(I.module_get(m, '_import_python'), [name, sc], {})
        except PyRaise:
            I.oblige('an executed script is not executed again', z3.Not(known.t))
            I.cover('failed')
            return
        if not ran:
            I.cover('again')
            I.oblige('nothing is executed only if the script has been', known.t)
            I.oblige('nothing is added', not added and not updated)
            return
        I.cover('executed')
        I.oblige('a script is executed once', z3.And(z3.Not(known.t), z3.BoolVal(len(ran) == 1)))
        I.oblige('the file exists', z3.Not(I.ghost['none']))
        I.oblige('its names become functions and constants', len(updated) == 1 and updated[0] is names)
        I.oblige('the script is known from now on', len(added) == 1)
        I.oblige('under its name', key(I, added[0]) == F.u)
    return I.verify('_import_python', body)


def dispatch(form):
    """The import form: an atom is a library, a quoted name a file, or a script by its extension."""
    def unit(I):
        def body(I):
            O.install(I)
            I.overrides['ast.NodeVisitor'] = Class('NodeVisitor', [I.builtin_classes['object']], {}, builtin=True)
            m = I.prog.module('pp.yugen')
            I.overrides['_loc'] = Builtin('_loc', lambda I, a, kw: I.ostr('loc'))
            I.overrides['_loc_repr'] = Builtin('_loc_repr', lambda I, a, kw: I.ostr('loc'))
            I.overrides['callee'] = Builtin('callee', lambda I, a, kw: 'ps_import')
            for n in ('trace__ps_', 'trace__ps__'):
                I.overrides[n] = Builtin(n, lambda I, a, kw: None)
            begin = I.module_get(m, 'ps_IMPORT')
            text = Text('source')
            I.assume(text.n >= len(begin))
            for k, ch in enumerate(begin):
                I.assume(z3.Select(text.arr, k) == ord(ch))

            def source_at(p):
                o = I.new('SOURCE', SStr([View(text, p, text.n)]))
                o.fields.update(input_file='file', pos=SInt(p))
                return o

            def place(a):
                v = I.view(I.strval(a))
                if v is None:
                    raise Unsupported('a rest of the source')
                return v.a

            def gap(I, a, kw):
                p = place(a[0])
                q = I.fint('after gap').t
                I.assume(z3.And(p <= q, q <= text.n))
                return (source_at(q), None)
            I.overrides['ps_gap'] = Builtin('ps_gap', gap)
            name = SStr([L.piece(I, 'name', '[A-Za-z_]+')])
            state = {'pos': None}

            def element(kind):
                def f(I, a, kw):
                    p = place(a[0])
                    if kind != form[0]:
                        return (a[0], None)
                    q = I.fint('after ' + kind).t
                    I.assume(z3.And(p < q, q <= text.n))
                    state['pos'] = p
                    if kind == 'atom':
                        leg = I.new('ATOM', name)
                    elif kind == 'quote':
                        leg = I.new('STR', quoted)
                    else:
                        leg = E.node(I, 'INFIX', ast=I.sym(None, 'code'))
                    leg.fields.update(input_file='file', pos=SInt(p))
                    state['leg'] = leg
                    return (source_at(q), leg)
                return f
            d = ['', SStr([L.piece(I, 'dir', '[a-z.][a-z./]*'), '/'])][I.choose(2)] if form[0] == 'quote' else ''
            fn = SStr([L.piece(I, 'file', '[a-z_]+')])
            path = I.mkstr([p for x in (d, fn) for p in ([x] if isinstance(x, str) else x.ps)] + [form[1]])
            quoted = I.mkstr(['"'] + (list(path.ps)) + ['"'])
            for k in ('atom', 'quote', 'infix'):
                I.overrides['ps_' + k] = Builtin('ps_' + k, element(k))

            def unq(I, a, kw):
                if a[0] is not state.get('leg'):
                    raise Unsupported('_unq')
                r = I.new('STR', path)
                r.fields.update(a[0].fields)
                return r
            I.overrides['_unq'] = Builtin('_unq', unq)
            got, parsed, enclosed = [], [], []
            res = I.ostr('entry')
            lib = I.new('STR', res)

            def imports(I, a, kw):
                a = list(a) + [kw[k] for k in ('lib', 'once')[len(a):] if k in kw]
                got.append(('source', a[0], a[1]))
                return lib

            def python(I, a, kw):
                a = list(a) + [kw[k] for k in ('name', 'script')[len(a):] if k in kw]
                got.append(('python', a[0], a[1]))

            def evaluate(I, a, kw):
                got.append(('eval', a[0], None))
                return lib
            I.overrides['_import_source'] = Builtin('_import_source', imports)
            I.overrides['_import_python'] = Builtin('_import_python', python)
            I.overrides['_import_eval'] = Builtin('_import_eval', evaluate)
            tree = I.new('TEXT', None, ast=I.new_list([I.sym(None, 'parsed')]))

            def parse(I, a, kw):
                parsed.append(a[0])
                return tree
            I.overrides['yuparse'] = Builtin('yuparse', parse)
            fnp = I.module_get(m, 'ps_import')
            try:
                r = I.call(fnp, [source_at(z3.IntVal(0)), 0])
            except PyRaise as e:
                I.cover('a mistake')
                I.oblige('no exception but a diagnostic (%s)' % e.cls.name, e.cls.name == 'SyntaxError')
                return
            I.cover('imported')
            if not (isinstance(r, tuple) and len(r) == 2):
                I.oblige('returns the rest and a node', False)
            I.oblige('one import takes place', len(got) == 1)
            kind, x, y = got[0]

            def text_is(v, want):
                s = I.strval(v)
                if s is None or not L.pure(s):
                    return False
                w = L.same(s, want)
                if w is None:
                    raise Unsupported('a name of another form')
                return w is True

            def located(v):
                ok = isinstance(v, Obj) and 'input_file' in v.fields and v.fields['input_file'] == 'file'
                I.oblige('the name imported knows its place', ok)
                I.oblige('which is that of the name in the form', I.it(v.fields['pos']) == state['pos'])
            if form[0] == 'atom':
                I.oblige('a name is that of a library, read once', kind == 'source' and y is True)
                I.oblige('the file of a library has the extension .yu', text_is(x, I.concat(name, '.yu')))
                located(x)
            elif form[0] == 'infix':
                I.oblige('an expression is evaluated', kind == 'eval' and x is state['leg'])
            elif form[2] == 'py':
                I.oblige('a script is executed', kind == 'python')
                I.oblige('the script is that in quotes', text_is(y, path))
                located(y)
                I.oblige('a script yields nothing', isinstance(r[1], Obj) and r[1].cls.name == 'TEXT' and not parsed
                         and isinstance(r[1].fields['ast'].payload, ListP) and r[1].fields['ast'].payload.kind == 'conc' and not r[1].fields['ast'].payload.items)
                return
            else:
                I.oblige('a quoted file is read every time', kind == 'source' and y is False)
                I.oblige('the file is that in quotes', text_is(x, path))
                located(x)
            I.oblige('the text is parsed once', len(parsed) == 1 and parsed[0] is lib)
            I.oblige('the value is the parsed text', r[1] is tree)
        return I.verify('ps_import', body)
    return unit


def directories(named):
    """The directory of the source, those of the user in their order, the library."""
    def unit(I):
        def body(I):
            from . import C20
            C20.paths(I)
            I.overrides['ast.NodeVisitor'] = Class('NodeVisitor', [I.builtin_classes['object']], {}, builtin=True)
            m = I.prog.module('pp.yugen')
            ys, conf = I.module_get(m, 'yushell'), I.module_get(m, 'config')
            nd = I.fint('directories').t
            I.assume(nd >= 0)
            dirs = Obj(I.builtin_classes['list'], ListP('fn', n=nd, get=lambda k: opaque(I, 'd', DIR(k))))
            conf.attrs = dict(conf.attrs, directory=dirs, pp_skip_comments=I.fint('skip comments'), pp_define=I.new_list([]))
            I.overrides['_update_builtin_from_config'] = Builtin('_update_builtin_from_config', lambda I, a, kw: None)
            I.overrides['_unify_eol'] = Builtin('_unify_eol', lambda I, a, kw: a[0])
            fn = opaque(I, 'input', None, 1) if named else None
            I.run_func(ys, [I.ostr('text'), fn, None], {})
            I.cover('initialised')
            join, dirname, real = (z3.Function('os.path.' + n, *([U] * k)) for n, k in (('join', 3), ('dirname', 2), ('realpath', 2)))
            lib = join(dirname(dirname(real(I.box('/yupp/pp/yugen.py')))), I.box('lib'))
            if named:
                C10.same(I, ys.attrs['directory'], nd + 2, lambda q: z3.If(q == 0, dirname(key(I, fn)), z3.If(q <= nd, DIR(q - 1), lib)), 'the search: the source, the user, the library')
            else:
                C10.same(I, ys.attrs['directory'], nd + 1, lambda q: z3.If(q < nd, DIR(q), lib), 'the search: the user, the library')
        return I.verify('yushell', body)
    return unit


FORMS = [('a library', ('atom', '')), ('an expression', ('infix', ''))] + \
    [('a file %s' % (e or 'without extension'), ('quote', e, 'yu')) for e in ('.yu', '', '.c', '.py.yu')] + [('a script ' + e, ('quote', e, 'py')) for e in ('.py', '.PY', '.v2.py')]
UNITS = [('directories of a file', directories(True)), ('directories of a text', directories(False)), ('_import_source', source), ('_import_python', script)] + [('ps_import ' + n, dispatch(f)) for n, f in FORMS]
TRUSTED = ['os.path.isfile, os.path.join, open, imp.load_source and vars by contract', 'splitext and basename of os.path as modelled (contracts/osmodel.py)',
           'ps_gap, ps_atom, ps_quote, ps_infix by contract (C01, C03); _unq gives the text between the quotes']
ASSUMPTIONS = ['the files do not change during a run']
