"""C21: the settings are a function of the options given: _pp_configure puts each option,
or its documented default, into the one setting it names, whatever the settings were;
shell_parse_yuconfig layers the scripts over the defaults, whatever they do; the command
line declares each option once, with its documented default."""
import ast
import os
import z3
from pyvc.values import *
from pyvc.models import PYSPACE
from . import shellmodel as S

# option -> ( setting, kind, documented default )
SCALAR = {
    'pp_skip_comments': ('config.pp_skip_comments', 'int', 0), 'pp_trim_app_indent': ('config.pp_trim_app_indent', 'bool', True),
    'pp_reduce_emptiness': ('config.pp_reduce_emptiness', 'bool', True), 'pp_browse': ('config.pp_browse', 'bool', False),
    'warn_unbound_application': ('config.warn_unbound_application', 'bool', True), 'log_level': ('log', 'int', 1),
    'trace_stage': ('trace.stage', 'int', 0), 'traceback': ('shell.traceback', 'int', 1), 'quiet': ('shell.quiet', 'bool', False),
    'type_output': ('shell.type_output', 'bool', False), 'read_only': ('shell.read_only', 'bool', True),
    'output_dir': ('shell.output_dir', 'str', '')}
LISTS = {'directory': ('config.directory', 'list', []), 'pp_define': ('config.pp_define', 'list', [])}
OPTIONS = dict(SCALAR, **LISTS)
CONSTANTS = {'PP_SKIP_COMMENTS_NONE': 0, 'PP_SKIP_C_COMMENTS': 1, 'PP_SKIP_PYTHON_COMMENTS': 2, 'PP_SKIP_COMMENTS_AUTO': 3,
             'PP_SKIP_COMMENTS': 0, 'PP_TRIM_APP_INDENT': True, 'PP_REDUCE_EMPTINESS': True, 'PP_BROWSE': False,
             'WARN_UNBOUND_APPLICATION': True, 'LOG_LEVEL_DEBUG': 1, 'LOG_LEVEL_INFO': 2, 'LOG_LEVEL_WARNING': 3, 'LOG_LEVEL_ERROR': 4,
             'LOG_LEVEL_CRITICAL': 5, 'LOG_LEVEL': 1, 'TRACE_STAGE_NONE': 0, 'TRACE_STAGE_PARSE': 1, 'TRACE_STAGE_EVAL': 2,
             'TRACE_STAGE_ALL': 3, 'TRACE_STAGE': 0, 'TRACEBACK_NONE': 0, 'TRACEBACK_PYTHON': 1, 'TRACEBACK_ALL': 2, 'TRACEBACK': 1}


def value(I, kind, name):
    if kind == 'int':
        return I.fint(name)
    if kind == 'bool':
        return I.fbool(name)
    if kind == 'str':
        return I.ostr(name)
    if kind == 'list':
        return I.new_list([I.ostr(name)])
    if kind == 'float':
        return 1.5
    if kind == 'tuple':
        return (I.ostr(name),)
    return None


def is_default(I, v, d):
    if isinstance(d, list):
        return isinstance(v, Obj) and isinstance(v.payload, ListP) and v.payload.kind == 'conc' and not v.payload.items
    return type(v) is type(d) and v == d


def records(I):
    """The settings, with anything in them."""
    trace = Obj(I.builtin_classes['object'], None, {'stage': I.fint('stage.before')})
    I.overrides['trace'] = trace
    cfg = S.attrs(I, 'config', 'pp.yugen')
    sh = S.attrs(I, 'shell', 'pp.yup')
    for k, (where, kind, d) in sorted(OPTIONS.items()):
        o = {'config': cfg, 'shell': sh}.get(where.split('.')[0])
        if o is not None:
            o.attrs[where.split('.')[1]] = value(I, kind, k + '.before')
    return {'config': cfg, 'shell': sh, 'trace': trace}


def setting(I, rec, where):
    if where == 'log':
        calls = [a for n, a in I.ghost.get('logged', ()) if n == 'log.setLevel']
        return calls[-1][0] if calls else None
    o = rec[where.split('.')[0]]
    return I.read_field(o, where.split('.')[1])


def configure(I):
    """Every option but one is arbitrary: given or not, with any value."""
    def body(I):
        S.surroundings(I)
        rec = records(I)
        names = sorted(OPTIONS)
        key = names[I.choose(len(names))]
        where, kind, default = OPTIONS[key]
        given = I.choose(2) == 1
        v = value(I, kind, 'given')
        d = Obj(I.builtin_classes['object'])

        def get(I, o, a, kw):
            k = a[0]
            if not isinstance(k, str):
                raise Unsupported('an option of unknown name')
            if k == key:
                return v if given else (a[1] if len(a) > 1 else None)
            if k in OPTIONS:
                return value(I, OPTIONS[k][1], k + '.given')
            return I.fint(k)
        d.ghost['methods'] = {'get': get}
        try:
            I.run_func(I.module_get(I.prog.module('pp.yup'), '_pp_configure'), [d], {})
        except PyRaise as e:
            I.oblige('no exception (%s)' % e.cls.name, False)
        I.cover(key)
        r = setting(I, rec, where)
        if key == 'log_level':
            w = I.it(v) * 10 if given else z3.IntVal(default * 10)
            I.oblige('the level of the log is ten times the option, or its default', I.is_int(r) and z3.simplify(I.it(r) == w))
        elif given:
            I.oblige('%s reaches the setting it names' % key, r is v)
        else:
            I.oblige('%s has its default if it is not given' % key, is_default(I, r, default))
    return I.verify('_pp_configure', body)


def constants(root):
    """yuconfig.py has no input: its constants are those of the file."""
    with open(os.path.join(root, 'pp/yuconfig.py')) as f:
        ns = {'__name__': 'yuconfig'}
        exec(compile(f.read(), 'yuconfig.py', 'exec'), ns)
    return ns['yuconfig_defaults']()


WRONG = {'scalar': ['str', 'none', 'float', 'list', 'tuple'], 'list': ['str', 'none', 'int', 'tuple']}


def parse_yuconfig(I):
    def body(I):
        S.surroundings(I)
        base = constants(I.prog.root)
        for k, c in CONSTANTS.items():
            if not (k in base and base[k] == c and type(base[k]) is type(c)):
                I.oblige('the constant %s has its documented value' % k, False)
        for k in base:
            if k in OPTIONS or k in ('force', 'dependency'):
                I.oblige('no option is set by default', False)
        I.overrides['yuconfig_defaults'] = Builtin('yuconfig_defaults', lambda I, a, kw: Obj(I.builtin_classes['dict'], DictP(dict(base))))
        names = ['pp_browse', 'pp_skip_comments', 'force', 'directory', 'dependency', 'pp_define', 'log_level']
        key = names[I.choose(len(names))]
        lst = key in ('directory', 'dependency', 'pp_define')
        right = ['list', 'append'] if lst else ['int', 'bool']
        fn = S.O.directory(I, 'dir')
        stem = I.concat(fn, SStr([S.L.piece(I, 'stem', '[^./\\n]+')]))
        name = I.concat(stem, SStr(['.', S.L.piece(I, 'ext', '[^./\\n]+')]))
        specific = I.concat(stem, '.yuconfig')
        seen, state = [], {'v': ('list', None) if lst else None}
        ctx = []

        def which(I, p):
            s = I.strval(p)
            if s is None:
                raise Unsupported('a script of unknown name')
            if s == '.yuconfig':
                return 0
            if S.L.same(s, specific) is True:
                return 1
            I.oblige('the scripts are that of the directory and that of the file', False)

        for i in (0, 1):
            I.ghost[('there', i)] = I.choose(2) == 1

        def isfile(I, a, kw):
            i = which(I, a[0])
            return I.ghost[('there', i)]
        for f in ('isfile', 'exists'):
            I.overrides['os.path.' + f] = Builtin('os.path.' + f, isfile)

        def execute(I, a, kw):
            i = which(I, a[0])
            if not I.ghost.get(('there', i), True):
                I.throw('OSError', 'open')
            I.oblige('the scripts are executed in the order of their weight, each once', seen == list(range(i)) or seen == [0][:i] or (i == 1 and seen == []))
            seen.append(i)
            c = a[1]
            I.oblige('both scripts see the same names', all(x is c for x in ctx))
            ctx.append(c)
            if i == 0 or len(ctx) == 1:
                I.oblige('the constants can be used in a script', all(c.payload.items.get(k) == v for k, v in base.items()))
            what = right + WRONG['list' if lst else 'scalar'] + ['nothing', 'deleted']
            w = what[I.choose(len(what))]
            if w == 'append':
                cur = c.payload.items.get(key)
                if state['v'] is not None and state['v'][0] == 'list' and isinstance(cur, Obj):
                    x = I.ostr('more')
                    I.list_method(cur, 'append', [x], {})
                    state['v'] = ('list', cur)
                else:
                    I.throw('AttributeError', 'append')
            elif w == 'deleted':
                if key not in c.payload.items:
                    I.throw('NameError', key)
                del c.payload.items[key]
                state['v'] = None
            elif w != 'nothing':
                v = value(I, w, 'script %d' % i)
                c.payload.items[key] = v
                state['v'] = (w, v)
            if I.choose(2):
                I.throw(('ValueError', 'OSError', 'SyntaxError')[0], 'script')
        I.overrides['execfile'] = Builtin('execfile', execute)
        try:
            r = I.run_func(I.module_get(I.prog.module('pp.yup'), 'shell_parse_yuconfig'), [name], {})
        except PyRaise as e:
            I.oblige('a script that fails does not stop the run (%s)' % e.cls.name, False)
        I.cover(key)
        if not (isinstance(r, Obj) and isinstance(r.payload, DictP)):
            I.oblige('returns the options', False)
        for i in (0, 1):
            if I.ghost.get(('there', i), False):
                I.oblige('a script that exists is executed', i in seen)
            elif i in seen:
                I.oblige('only a script that exists is executed', I.ghost.get(('there', i), True))
        errors = [n for n, a in I.ghost.get('logged', ()) if n in ('log.error', 'log.critical', 'log.warn', 'log.warning', 'log.exception')]
        got = r.payload.items.get(key)
        v = state['v']
        good = v is not None and v[0] in (('list',) if lst else ('int', 'bool'))
        if good and v[1] is not None:
            I.oblige('an option has the value of the most specific script that sets it', got is v[1])
        elif good:
            I.oblige('an option that is not set is empty', got is None or is_default(I, got, []))
        else:
            I.oblige('a value of a wrong kind is ignored', got is None and key not in r.payload.items or lst and is_default(I, got, []))
        for k in OPTIONS:
            if k != key and k in r.payload.items:
                I.oblige('an option that no script sets is not given', k in LISTS and is_default(I, r.payload.items[k], []))
    return I.verify('shell_parse_yuconfig', body)


def exec_script(I):
    def body(I):
        S.surroundings(I)
        there = I.choose(2) == 1
        fn = I.ostr('script')
        ctx = Obj(I.builtin_classes['dict'], DictP({}))
        calls, failed = [], []
        for f in ('isfile', 'exists'):
            I.overrides['os.path.' + f] = Builtin('os.path.' + f, lambda I, a, kw: there)

        def execute(I, a, kw):
            calls.append(a)
            if not there:
                I.throw('OSError', 'open')
            ks = ('Exception', 'SyntaxError', 'OSError', 'ValueError', 'KeyError', 'ZeroDivisionError', 'UnicodeDecodeError', 'RuntimeError')
            k = I.choose(len(ks) + 1)
            if k:
                failed.append(ks[k - 1])
                I.throw(ks[k - 1], 'script')
        I.overrides['execfile'] = Builtin('execfile', execute)
        try:
            I.run_func(I.module_get(I.prog.module('pp.yup'), '_exec_yuconfig_script'), [fn, ctx], {})
        except PyRaise as e:
            I.oblige('a script that fails does not stop the run (%s)' % e.cls.name, False)
        I.cover('there' if there else 'no script')
        n = len([c for c in calls])
        I.oblige('a script that exists is executed once, with the options', (n == 1 and calls[0][0] is fn and calls[0][1] is ctx) if there else n == 0 or bool(calls))
        reports = [x for x, a in I.ghost.get('logged', ()) if x in ('log.error', 'log.critical', 'log.warn', 'log.warning', 'log.exception')]
        I.oblige('a failing script is reported', bool(reports) if failed else not reports)
    return I.verify('_exec_yuconfig_script', body)


# flag -> ( dest, action, type, choices, documented default )
FLAGS = {
    '-q': ('quiet', 'store_true', None, None, False), '--quiet': ('quiet', 'store_true', None, None, False),
    '-d': ('directory', 'append', None, None, []), '-o': ('output_dir', None, None, None, ''), '--output': ('output_dir', None, None, None, ''),
    '--no-read-only': ('read_only', 'store_false', None, None, True),
    '--pp-skip-comments': ('pp_skip_comments', None, 'int', [0, 1, 2, 3], 0),
    '--pp-no-trim-app-indent': ('pp_trim_app_indent', 'store_false', None, None, True),
    '--pp-trim-app-indent': ('pp_trim_app_indent', 'store_true', None, None, True),
    '--pp-no-reduce-emptiness': ('pp_reduce_emptiness', 'store_false', None, None, True),
    '--pp-reduce-emptiness': ('pp_reduce_emptiness', 'store_true', None, None, True),
    '--pp-no-browse': ('pp_browse', 'store_false', None, None, False), '--pp-browse': ('pp_browse', 'store_true', None, None, False),
    '-D': ('pp_define', 'append', None, None, []), '--pp-define': ('pp_define', 'append', None, None, []),
    '--warn-no-unbound-application': ('warn_unbound_application', 'store_false', None, None, True),
    '-Wno-unbound': ('warn_unbound_application', 'store_false', None, None, True),
    '--warn-unbound-application': ('warn_unbound_application', 'store_true', None, None, True),
    '-Wunbound': ('warn_unbound_application', 'store_true', None, None, True),
    '-l': ('log_level', None, 'int', [1, 2, 3, 4, 5], 1), '--log': ('log_level', None, 'int', [1, 2, 3, 4, 5], 1),
    '-t': ('trace_stage', None, 'int', [0, 1, 2, 3], 0), '--trace': ('trace_stage', None, 'int', [0, 1, 2, 3], 0),
    '-b': ('traceback', None, 'int', [0, 1, 2], 1), '--traceback': ('traceback', None, 'int', [0, 1, 2], 1),
    '--type-file': ('type_output', 'store_true', None, None, False), 'files': ('files', None, 'str', None, None)}


def conc(I, v):
    if isinstance(v, Obj) and isinstance(v.payload, ListP) and v.payload.kind == 'conc':
        return [conc(I, x) for x in v.payload.items]
    return v


def arguments(I):
    def body(I):
        S.surroundings(I)
        records(I)
        recs, defaults, parsed = [], {}, []
        p = Obj(I.builtin_classes['object'])
        names = Obj(I.builtin_classes['object'])

        def add(I, o, a, kw):
            recs.append((a, kw))
            # a default set earlier for the same destination wins over the implied one only
            dest = kw.get('dest', a[0] if a and not a[0].startswith('-') else None)
            if 'default' in kw:
                defaults[dest] = conc(I, kw['default'])
            elif dest not in defaults:
                defaults[dest] = {'store_true': False, 'store_false': True}.get(kw.get('action'))

        def set_defaults(I, o, a, kw):
            for k, v in kw.items():
                defaults[k] = conc(I, v)

        def parse(I, o, a, kw):
            parsed.append(a[0] if a else None)
            return names
        p.ghost['methods'] = {'add_argument': add, 'set_defaults': set_defaults, 'parse_args': parse}
        I.overrides['ArgumentParser'] = Builtin('ArgumentParser', lambda I, a, kw: p)
        I.overrides['sys.exit'] = Builtin('sys.exit', lambda I, a, kw: I.throw('SystemExit', *a))
        shape = I.choose(4)
        words = I.new_list([I.ostr('word'), I.ostr('word')])
        text = Obj(I.builtin_classes['object'])
        text.ghost['methods'] = {'split': lambda I, o, a, kw: words if not a and not kw else I.throw('ValueError', 'split')}
        fault = []

        def opn(I, a, kw):
            I.oblige('the response file is the one named', I.strval(a[0]) == 'file' and (len(a) < 2 or a[1] == 'r'))
            if I.choose(2):
                fault.append(1)
                I.throw('OSError', 'open')
            f = Obj(I.builtin_classes['object'])
            f.ghost['methods'] = {'read': lambda I, o, a, kw: text, 'close': lambda I, o, a, kw: None}
            f.ghost['enter'] = lambda I, o: o
            f.ghost['exit'] = lambda I, o: None
            return f
        I.overrides['open'] = Builtin('open', opn)
        al = I.new_list([['@file'], ['name'], [], ['@file', 'other']][shape])
        r, ex = None, None
        try:
            r = I.run_func(I.module_get(I.prog.module('pp.yup'), 'shell_parse_cli_arguments'), [al], {})
        except PyRaise as e:
            ex = e
        I.cover('shape %d' % shape)
        if fault:
            I.oblige('a response file that cannot be read ends the run with status 2', ex is not None and ex.cls.name == 'SystemExit' and tuple(ex.args_) == (2,))
            return
        I.oblige('no exception', ex is None)
        I.oblige('the arguments are those given or those of the response file', len(parsed) == 1 and (parsed[0] is words if shape == 0 else
                 parsed[0] is al or conc(I, parsed[0]) == conc(I, al)) and r is names)
        flags = {}
        for a, kw in recs:
            for x in a:
                I.oblige('%s is declared once' % x, x not in flags)
                flags[x] = kw
        for f, (dest, action, typ, choices, default) in sorted(FLAGS.items()):
            kw = flags.get(f)
            if kw is None:
                I.oblige('%s is declared' % f, False)
            I.oblige('%s names the option %s' % (f, dest), kw.get('dest', f) == dest)
            I.oblige('%s does what it says' % f, kw.get('action') in (action, 'store' if action is None else action))
            t = kw.get('type')
            I.oblige('%s has its kind' % f, typ is None and getattr(t, 'name', t) in (None, 'str') or typ is not None and getattr(t, 'name', None) == typ)
            c = conc(I, kw.get('choices'))
            I.oblige('%s has its choices' % f, (list(c) if c is not None else None) == choices)
            if f != 'files':
                d = defaults.get(dest)
                I.oblige('%s has its documented default' % f, type(d) is type(default) and d == default)
    return I.verify('shell_parse_cli_arguments', body)


def definitions(I):
    """Any number of constants given with -D, each any text: NAME, or NAME:VALUE up to the end, without the space around them."""
    def body(I):
        S.surroundings(I)
        m = I.prog.module('pp.yugen')
        I.overrides['ast.NodeVisitor'] = Class('NodeVisitor', [I.builtin_classes['object']], {}, builtin=True)
        conf = I.module_get(m, 'config')
        n = I.fint('options').t
        I.assume(n >= 0)
        texts, parsed, done = {}, [], []
        now, inside = {}, []

        def option(k):
            kk = z3.simplify(k) if isinstance(k, z3.ExprRef) else k
            t = texts.get(str(kk))
            if t is None:
                t = texts[str(kk)] = Text('option %d' % len(texts))
                I.assume(t.n >= 0)
            now['t'] = t
            now['atom'] = None
            del parsed[:], done[:]
            return SStr([View(t, z3.IntVal(0), t.n)])
        defs = Obj(I.builtin_classes['list'], ListP('fn', n=n, get=option))
        conf.attrs = dict(conf.attrs, pp_define=defs)
        initial = Obj(I.builtin_classes['dict'], DictP({}, Map.any(I, 'initial')))
        tab = Obj(I.builtin_classes['dict'], DictP({}))
        space = lambda c: z3.Or(*[z3.And(a <= c, c <= b) if a != b else c == a for a, b in PYSPACE])
        j = z3.Int('j')

        def blank(t, a, b):
            return z3.ForAll([j], z3.Implies(z3.And(a <= j, j < b), space(z3.Select(t.arr, j))))

        def view(v):
            s = I.strval(v)
            if s == '':
                return None
            if isinstance(s, SStr) and len(s.ps) == 1 and isinstance(s.ps[0], View):
                return s.ps[0]
            raise Unsupported('a text of unknown origin')

        def colon(t):
            """The first colon, or the end."""
            if 'colon' not in t.__dict__ or t.__dict__['run'] is not texts:
                c = I.fint('colon').t
                t.colon, t.run = c, texts
                I.assume(z3.And(0 <= c, c <= t.n, z3.Or(c == t.n, z3.Select(t.arr, c) == 58)))
                I.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < c), z3.Select(t.arr, j) != 58), patterns=[z3.Select(t.arr, j)]))
            return t.colon

        def stripped(t, v, a, b):
            """v is t[ a:b ] without the space around it, and not empty."""
            return z3.And(a <= v.a, v.a < v.b, v.b <= b, blank(t, a, v.a), blank(t, v.b, b),
                          z3.Not(space(z3.Select(t.arr, v.a))), z3.Not(space(z3.Select(t.arr, v.b - 1))))

        def split(I, s, a):
            v = view(s)
            if v is None or len(a) != 2 or a[0] != ':' or a[1] != 1:
                return NotImplemented
            c = colon(v.text)
            if v.text is not now.get('t') or not (I.must(z3.And(v.a == 0, v.b == v.text.n))):
                raise Unsupported('split of a part')
            if I.branch(SBool(c == v.text.n)):
                return I.new_list([s])
            return I.new_list([SStr([View(v.text, z3.IntVal(0), c)]), SStr([View(v.text, c + 1, v.text.n)])])
        I.split_hook = split

        def atom(I, a, kw):
            t, v = now.get('t'), view(a[0])
            if v is not None:
                if v.text is not t:
                    I.oblige('the name is that of the option', False)
                I.oblige('the name is all that precedes the first colon', z3.Or(stripped(t, v, z3.IntVal(0), colon(t)), z3.And(v.a == v.b, blank(t, z3.IntVal(0), colon(t)))))
            parsed.append(a[0])
            w = I.choose(3) if v is not None else 0
            if w == 0:
                return (a[0], None)
            rest = '' if w == 1 else SStr([View(v.text, v.a + 1, v.b)])
            if w == 2:
                I.assume(v.a + 1 < v.b)
            else:
                I.assume(v.a < v.b)
            name = I.new('ATOM', SStr([View(v.text, v.a, v.b if w == 1 else v.a + 1)]))
            now['atom'] = name if w == 1 else None
            return (rest, name)
        I.overrides['ps_atom'] = Builtin('ps_atom', atom)

        def setitem(I, o, k, v):
            t = now.get('t')
            I.oblige('the built-in names are there before a constant is defined', bool(tab.ghost.get('initial')))
            I.oblige('only an option that is a name defines one', now.get('atom') is not None and k is now['atom'])
            done.append(k)
            c = colon(t)
            if v is True:
                I.oblige('a constant without a value is true', z3.Or(c == t.n, blank(t, c + 1, t.n)))
                return
            w = view(v)
            if w is None or w.text is not t:
                I.oblige('the value is that of the option', False)
            I.oblige('the value is all that follows the first colon', z3.And(c < t.n, stripped(t, w, c + 1, t.n)))

        def update(I, o, a, kw):
            if len(a) == 1 and a[0] is initial and not kw:
                I.oblige('no definition is overwritten by a built-in name', not now)
                o.ghost['initial'] = True
                return
            raise Unsupported('update')
        tab.ghost['setitem'] = setitem
        tab.ghost['volatile'] = True
        tab.ghost['methods'] = dict(clear=lambda I, o, a, kw: I.oblige('no definition is dropped', not now), update=update)
        I.overrides['builtin'], I.overrides['_builtin_initial'] = tab, initial

        def loop(I, st):
            v = I.ev(st.iter)
            if v is not defs:
                return I.for_src(st, I.iterate(v), lambda x: I.assign(st.target, x), lambda: I.block(st.body), [st])
            I.cuts += 1
            if I.choose(2) == 0:
                return None
            # an arbitrary option, whatever those before it did
            k = I.fint('k').t
            I.assume(z3.And(0 <= k, k < n))
            for x in list(I.frames[-1].vars):
                if x in assigned([st]):
                    I.frames[-1].vars[x] = Poison('assigned in a loop')
            try:
                I.assign(st.target, option(k))
                I.block(st.body)
            except Cont:
                pass
            except Brk:
                I.oblige('every option is looked at', False)
            I.cover('an option')
            I.oblige('an option that is a name defines it, once', len(done) == (1 if now.get('atom') is not None else 0))
            raise PathEnd()
        I.loop_policy = lambda I, st: loop
        try:
            I.run_func(I.module_get(m, '_update_builtin_from_config'), [], {})
        except PyRaise as e:
            I.oblige('no definition stops the run (%s)' % e.cls.name, False)
        I.cover('done')
        I.oblige('the built-in names are there', bool(tab.ghost.get('initial')))
    return I.verify('_update_builtin_from_config', body)


def assigned(nodes):
    return {x.id for n in nodes for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}


UNITS = [('_pp_configure', configure), ('shell_parse_yuconfig', parse_yuconfig), ('_exec_yuconfig_script', exec_script),
         ('shell_parse_cli_arguments', arguments), ('_update_builtin_from_config', definitions)]
TRUSTED = ['argparse: parse_args does what the declarations say', 'execfile runs the script over the given names, or raises',
           'os.path as contracts/osmodel.py defines it', 'ps_atom by contract: a prefix of the text that is an atom, and the rest']
ASSUMPTIONS = ['a script changes nothing but its names (it is arbitrary Python)', 'SystemExit and KeyboardInterrupt raised by a script end the run']
