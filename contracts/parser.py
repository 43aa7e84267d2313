"""Contracts of the parser functions ps_* of pp/yugen.py (C01, C02, C03, C05).

The general contract of a parsing function f( sou, depth ) -> ( rest, leg ):

  requires  sou is a SOURCE whose text is a suffix T[a:] of a text T of any
            length, sou.pos == a, sou.input_file == F           ("Valid")
  ensures   rest is Valid over the same T and F, rest.a >= sou.a
            leg is None  ==> rest.a == sou.a
            leg not None ==> rest.a >  sou.a
            every token inside leg is located: its text is T[x:y] with pos == x
            and input_file == F (identifiers, strings, comments, plain text)
  raises    nothing but SyntaxError / EOFError whose message starts with the
            name of a grammar rule ('ps_...'), or a failed import, reported the
            same way
  decreases ( len( T ) - a, rank of f in the same-position call graph )
"""
import z3
from pyvc.values import *
from pyvc.engine import Engine, Unsupported

TOKENS = ('ATOM', 'REMARK', 'STR', 'PLAIN')

LEGS = {
    'ps_set': ['SET'], 'ps_let': ['LET'], 'ps_macro': ['MACRO'], 'ps_emit': ['EMIT'],
    'ps_import': ['TEXT'], 'ps_comment': ['COMMENT'], 'ps_remark_c': ['REMARK'], 'ps_remark_python': ['REMARK'],
    'ps_quote': ['STR'], 'ps_string_python': ['STR'], 'ps_number': ['INT', 'FLOAT'], 'ps_atom': ['ATOM'],
    'ps_variable': ['VAR'], 'ps_lambda': ['LAMBDA'], 'ps_value': ['STR', 'INT', 'FLOAT'], 'ps_list': ['LIST'],
    'ps_infix': ['INFIX'], 'ps_code': ['TEXT'],
}
LEGS['ps_application'] = ['APPLY', 'EVAL', 'TEXT', 'EMIT', 'INFIX']
LEGS['ps_l_form'] = sorted(set(LEGS['ps_code'] + LEGS['ps_infix'] + LEGS['ps_let'] + LEGS['ps_application'] + LEGS['ps_list']))
LEGS['ps_former'] = sorted(set(LEGS['ps_value'] + LEGS['ps_variable'] + LEGS['ps_lambda'] + LEGS['ps_l_form']))
LEGS['ps_form'] = sorted(set(LEGS['ps_former'] + ['COND']))
LEGS['ps_function'] = LEGS['ps_form']
ALWAYS = ('ps_binding',)            # never returns None
BLANKS = ('ps_space', 'ps_eol', 'ps_gap')


STRING_FIRST = '\'"uUrRbBfF'


class Ctx:
    """The text under parse: T, file F."""


def source(I, a, text=None, cls='SOURCE'):
    P = I.ghost['P']
    o = I.new(cls, SStr([View(P.text, a, P.text.n)]))
    o.fields['input_file'] = P.file
    o.fields['pos'] = SInt(a)
    return o


def start(I):
    """A symbolic valid source."""
    P = Ctx()
    P.text = Text('T')
    P.file = I.ostr('F')
    I.assume(P.text.n >= 0)
    c = z3.Int('c!k')
    I.ghost['P'] = P
    a = I.fint('a0').t
    I.assume(z3.And(0 <= a, a <= P.text.n))
    P.a0 = a
    return a


def char(I, i):
    return z3.Select(I.ghost['P'].text.arr, i)


def is_source(I, v):
    return isinstance(v, Obj) and v.cls.issub(I.cls('SOURCE')) and I.view(v.payload) is not None \
        and I.view(v.payload).text is I.ghost['P'].text


def valid(I, v, label):
    """Oblige Valid( v ); returns the start of its text."""
    P = I.ghost['P']
    if isinstance(v, Obj) and isinstance(v.payload, str) and v.payload == '' and 'pos' in v.fields:
        raise Unsupported('empty source constant')
    if not is_source(I, v):
        I.oblige(label + ': a suffix of the text', False)
    w = I.view(v.payload)
    I.oblige(label + ': a suffix of the text', w.b == P.text.n)
    I.oblige(label + ': its offset', I.it(v.fields['pos']) == w.a)
    q = I.eq(v.fields['input_file'], P.file)
    I.oblige(label + ': its file', q if isinstance(q, bool) else q.t)
    return w.a


def located(I, v, label, depth=0):
    """Every token in v carries its own offset and file."""
    P = I.ghost.get('P')
    if P is None or v is None or isinstance(v, (bool, int, float, str, SInt, SBool, SFloat, SStr, Class, Func, IterSrc)):
        return
    if isinstance(v, tuple):
        for x in v:
            located(I, x, label, depth + 1)
        return
    if isinstance(v, Sym):
        if not v.ghost.get('located'):
            raise Unsupported('%s: an object of unknown origin' % label)
        return
    if isinstance(v, Obj):
        if v.cls.issub(I.cls('SOURCE')):
            p = v.payload
            if isinstance(p, str) and (p in ('', '...') or v.ghost.get('free')):
                return
            w = I.view(p)
            if v.cls.name == 'SOURCE' and isinstance(p, str):
                return                          # '<string>' and the like: a name, not a token
            if w is None:
                I.oblige(label + ': the token is a piece of the text', False)
            I.oblige(label + ': token offset', z3.Implies(w.a < w.b, I.it(v.fields['pos']) == w.a))
            q = I.eq(v.fields['input_file'], P.file)
            I.oblige(label + ': token file', z3.Implies(w.a < w.b, z3.BoolVal(q) if isinstance(q, bool) else q.t))
            return
        if v.ghost.get('ast'):
            return                              # checked when it was made
        if isinstance(v.payload, ListP):
            if v.payload.kind == 'conc':
                for x in v.payload.items:
                    located(I, x, label, depth + 1)
            return                              # symbolic lists: checked when the element was stored
        if v.cls.name in ('INT', 'FLOAT', 'COMMENT', 'LATE_BOUND', 'IMPORT_BEGIN', 'IMPORT_END'):
            return
        if depth < 4:
            for x in v.fields.values():
                located(I, x, label, depth + 1)


def on_new(I, cls, o):
    """Constructor discipline of syntax-tree nodes."""
    P = I.ghost.get('P')
    if P is None or I.ghost.get('noast') or not cls.module or cls.module.name != 'pp.yugen':
        return
    if cls.issub(I.cls('SOURCE')):
        return
    n = cls.name
    if n in ('APPLY', 'INFIX'):
        pos = I.it(o.fields['pos'])
        a0 = I.ghost['a0']
        width = 2 if n == 'APPLY' else None
        if width is None:
            width = z3.If(char(I, a0) == ord('{'), 1, 4)
        I.oblige('%s offset is inside its own opening bracket' % n, z3.And(a0 <= pos, pos < a0 + width))
        q = I.eq(o.fields['input_file'], P.file)
        I.oblige('%s file' % n, q if isinstance(q, bool) else q.t)
    for k, x in sorted(o.fields.items()):
        if isinstance(x, (Obj, Sym, tuple)):
            located(I, x, '%s.%s' % (n, k))
    if isinstance(o.payload, ListP) and o.payload.kind == 'conc':
        for x in o.payload.items:
            located(I, x, n)
    o.ghost['ast'] = True


def rulename(I):
    for f in reversed(I.frames):
        if f.func is not None and f.func.name.startswith('ps_'):
            return f.func.name
    for f in reversed(I.frames):
        if f.func is not None and f.func.name not in ('wrapped', '<lambda>'):
            return f.func.name
    return 'ps_'


def diag(I, name):
    """An exception of the preprocessor raised by a callee."""
    k = I.choose(2)
    raise PyRaise(I.builtin_classes['SyntaxError' if k else 'EOFError'], (I.mkstr([name + ': ', I.ostr('m').ps[0]]),))


class PS:
    """Contract of ( sou, depth ) -> ( rest, leg )."""

    def __init__(self, name):
        self.name = name

    def apply(self, I, args, fn):
        P = I.ghost['P']
        me = I.ghost.get('fn')
        a = valid(I, args['sou'], 'call of ' + self.name)
        ent = I.ghost.get('a0')
        if ent is not None:
            I.oblige('call of %s: not before the start' % self.name, a >= ent)
            if self.name not in BLANKS and not I.must(a > ent):
                I.samepos.add((me, self.name))
        if self.name not in ('ps_space', 'ps_eol', 'ps_gap', 'ps_atom') and I.choose(2) == 1:
            diag(I, self.name)
        leg, r = self.result(I, a)
        return (source(I, r), leg)

    def result(self, I, a):
        P = I.ghost['P']
        r = I.fint('r').t
        I.assume(z3.And(a <= r, r <= P.text.n))
        if self.name in BLANKS:
            if I.branch(r == a):
                if self.name == 'ps_eol':
                    return None, r
                return None, r
            o = I.new('SOURCE', SStr([View(P.text, a, r)]), input_file=P.file, pos=SInt(a))
            return o, r
        if self.name == 'ps_binding':
            I.assume(r > a)
            lv = I.sym(['ATOM', 'list'], 'lval')
            lv.ghost['located'] = True
            leg = I.sym(LEGS['ps_form'], 'leg')
            leg.ghost['located'] = True
            return (lv, leg), r
        if I.branch(r == a):
            return None, a
        if self.name == 'ps_atom':
            o = I.new('ATOM', SStr([View(P.text, a, r)]), input_file=P.file, pos=SInt(a))
            return o, r
        if self.name in ('ps_quote', 'ps_string_python', 'ps_remark_c', 'ps_remark_python'):
            o = I.new(LEGS[self.name][0])
            if self.name == 'ps_quote':
                x, y = I.fint('x').t, I.fint('y').t
                I.assume(z3.And(a <= x, x <= y, y <= r))
            else:
                x, y = a, r
                if self.name == 'ps_string_python':
                    I.assume(z3.Or([char(I, a) == ord(c) for c in STRING_FIRST]))
            o.payload = SStr([View(P.text, x, y)])
            o.fields.update(input_file=P.file, pos=SInt(x))
            return o, r
        leg = I.sym(LEGS[self.name], 'leg')
        leg.ghost['located'] = True
        leg.ghost['by'] = self.name
        return leg, r

    def check(self, I, a, ret):
        """The postcondition of the verified body."""
        P = I.ghost['P']
        n = self.name
        if not isinstance(ret, tuple) or len(ret) != 2:
            I.oblige('result is a pair', False)
        rest, leg = ret
        r = valid(I, rest, 'rest')
        I.oblige('rest is not before the start', r >= a)
        located(I, leg, 'result')
        if n == 'ps_binding':
            I.oblige('progress', r > a)
            I.oblige('result is a pair', isinstance(leg, tuple) and len(leg) == 2)
            return
        if leg is None:
            I.oblige('nothing consumed without result', r == a)
            return
        none = I.isinst(leg, I.builtin_classes['NoneType']) if isinstance(leg, Sym) else False
        I.oblige('progress with a result', r > a)
        if n in BLANKS:
            w = I.view(leg.payload) if isinstance(leg, Obj) else None
            I.oblige('blanks are the text skipped', w is not None and z3.And(w.a == a, w.b == r))
            return
        classes = LEGS[n]
        if isinstance(leg, Sym):
            names = set(leg.classes or ())
            if names <= set(classes):
                I.oblige('class of the result', True)
            else:
                I.oblige('class of the result', z3.Or([I.typ(leg.u) == I.tag(c) for c in classes]))
        else:
            I.oblige('class of the result', leg.cls.name in classes if isinstance(leg, Obj) else False)
        if n in ('ps_atom', 'ps_remark_c', 'ps_remark_python', 'ps_string_python'):
            w = I.view(leg.payload)
            I.oblige('the token is the text skipped', w is not None and z3.And(w.a == a, w.b == r))
            if n == 'ps_string_python':
                I.oblige('a string starts with a quotation mark or a prefix', z3.Or([char(I, a) == ord(c) for c in STRING_FIRST]))
        if n == 'ps_quote':
            w = I.view(leg.payload)
            if w is not None:
                I.oblige('the token lies in the text skipped', z3.And(a <= w.a, w.b <= r))


def check_raise(I, e):
    msg = e.args_[0] if e.args_ else None
    s = I.strval(msg) if msg is not None else None
    if e.obj is not None and isinstance(e.obj, Obj) and e.obj.ghost.get('diag'):
        I.oblige('raises only diagnostics of the preprocessor', True)
        return
    ok = e.cls.name in ('SyntaxError', 'EOFError') and s is not None
    if ok:
        first = s if isinstance(s, str) else s.ps[0]
        ok = isinstance(first, str) and first.startswith('ps_') and ':' in first
    I.oblige('raises only diagnostics of the preprocessor (%s at line %s)' % (e.cls.name, e.where), ok)


# ---------------------------------------------------------------------------------
# generators
# ---------------------------------------------------------------------------------
class PlainGen:
    """ps_plain( sou, pth_sq, pth, indent ): the k-th value (k = 1, 2, ...) is
    ( sou[k:], PLAIN( sou[:k] ), Ds( k ), Dp( k )), where Ds and Dp are the clamped
    bracket depths of sou[:k]; it ends by a diagnostic at the end of the text or at
    a forbidden character and never by StopIteration."""
    name = 'ps_plain'

    def apply(self, I, args, fn):
        a = valid(I, args['sou'], 'call of ps_plain')
        d = args['pth_sq'], args['pth']
        for x in d:
            if not isinstance(x, (int, SInt)):
                I.oblige('call of ps_plain: depths are numbers', False)
            I.oblige('call of ps_plain: depths are not negative', I.it(x) >= 0)
        # missed: an earlier position was a closing bracket at depth 0
        g = {'a': SInt(a), 'k': 0, 'ds': d[0], 'dp': d[1], 's0': d[0], 'p0': d[1], 'missed': False}
        I.ghost.setdefault('gens', []).append((g, a))
        return GenObj(self, g)

    def havoc(self, I, g, name):
        h = dict(g)
        for x in ('a', 'k', 'ds', 'dp', 's0', 'p0'):
            h[x] = I.fint(name + '.' + x)
        h['missed'] = I.fbool(name + '.missed')
        I.ghost.setdefault('gens', []).append((h, h['a'].t))
        I.assume(z3.And(h['k'].t >= 0, h['a'].t + h['k'].t <= I.ghost['P'].text.n, h['a'].t >= 0,
                        h['ds'].t >= 0, h['dp'].t >= 0))
        return h

    def next(self, I, o):
        P = I.ghost['P']
        g = o.g
        a, k = I.it(g['a']), I.it(g['k'])
        if I.choose(2) == 1:
            diag(I, 'ps_plain')
        I.assume(a + k < P.text.n)
        c = char(I, a + k)
        step = depth_step(c)
        ds, dp = step(I.it(g['ds']), '[', ']'), step(I.it(g['dp']), '(', ')')
        g['missed'] = SBool(z3.simplify(z3.Or(I.bt(g['missed']), z3.And(c == ord(')'), I.it(g['dp']) == 0))))
        g['k'] = I.mkint(z3.simplify(k + 1))
        g['ds'], g['dp'] = I.mkint(z3.simplify(ds)), I.mkint(z3.simplify(dp))
        I.wrote(o, 'payload') if False else None
        leg = I.new('PLAIN', SStr([View(P.text, a, a + k + 1)]), input_file=P.file, pos=SInt(a),
                    indent=I.ostr('indent'), trim=False)
        return (source(I, a + k + 1), leg, g['ds'], g['dp'])


def depth_step(c):
    def step(d, op, cl):
        return z3.If(c == ord(op), d + 1, z3.If(z3.And(c == ord(cl), d > 0), d - 1, d))
    return step


class TextGen:
    """ps_text( sou ): yields ( rest, TEXT ), rest Valid, never before sou, and after
    the first value always strictly further; ends by a diagnostic only."""
    name = 'ps_text'

    def apply(self, I, args, fn):
        a = valid(I, args['sou'], 'call of ps_text')
        ent = I.ghost.get('a0')
        if ent is not None and not I.must(a > ent):
            I.samepos.add((I.ghost.get('fn'), 'ps_text'))
        return GenObj(self, {'a': SInt(a), 'm': SInt(2 * (I.ghost['P'].text.n - a) + 1)})

    def havoc(self, I, g, name):
        h = {'a': I.fint(name + '.a'), 'm': I.fint(name + '.m')}
        n = I.ghost['P'].text.n
        I.assume(z3.And(0 <= h['a'].t, h['a'].t <= n,
                        z3.Or(h['m'].t == 2 * (n - h['a'].t), h['m'].t == 2 * (n - h['a'].t) + 1)))
        return h

    def next(self, I, o):
        P = I.ghost['P']
        g = o.g
        if I.choose(2) == 1:
            diag(I, 'ps_text')
        n = P.text.n
        r = I.fint('r').t
        first = I.it(g['m']) == 2 * (n - I.it(g['a'])) + 1
        I.assume(z3.And(I.it(g['a']) <= r, r <= n, z3.Implies(z3.Not(first), r > I.it(g['a']))))
        g['a'], g['m'] = SInt(r), SInt(2 * (n - r))
        d = I.fint('dsq'), I.fint('dp')
        I.assume(z3.And(d[0].t >= 0, d[1].t >= 0))
        t = I.new('TEXT', None, ast=Obj(I.builtin_classes['list'], I.sym_list(('seq',), 'ast')),
                  depth_pth_sq=d[0], depth_pth=d[1], pth_sq=d[0], pth=d[1])
        t.ghost['ast'] = True
        return (source(I, r), t)


class Header:
    """ps_header_python( sou ) -> ( rest, header ): a list of located tokens, or
    None and nothing consumed."""
    name = 'ps_header_python'

    def apply(self, I, args, fn):
        P = I.ghost['P']
        a = valid(I, args['sou'], 'call of ps_header_python')
        if I.choose(2) == 0:
            return (source(I, a), None)
        r = I.fint('r').t
        I.assume(z3.And(a <= r, r <= P.text.n))
        return (source(I, r), Obj(I.builtin_classes['list'], I.sym_list(('seq',), 'header')))

    def check(self, I, a, ret):
        rest, header = ret
        r = valid(I, rest, 'rest')
        I.oblige('rest is not before the start', r >= a)
        if header is None:
            I.oblige('nothing consumed without a magic comment', r == a)
        else:
            located(I, header, 'header')


# ---------------------------------------------------------------------------------
class Import:
    """_import_source, _import_python, _import_eval, yuparse: outside the text."""

    def __init__(self, name):
        self.name = name

    def apply(self, I, args, fn):
        k = I.choose(3)
        if k == 1:
            diag(I, 'ps_import')
        if k == 2:
            # an error of the file system, reported as 'ps_import...'
            o = Obj(I.builtin_classes['OSError'])
            o.ghost['diag'] = True
            raise PyRaise(o.cls, (I.mkstr(['ps_import: ', I.ostr('m').ps[0]]),), obj=o)
        if self.name == 'yuparse':
            t = I.new('TEXT', None, ast=Obj(I.builtin_classes['list'], I.sym_list(('seq',), 'ast')))
            t.ghost['ast'] = True
            return t
        if self.name == '_import_python':
            return None
        return I.ostr('lib')


def setup(I):
    I.samepos = getattr(I, 'samepos', set())
    I.on_new = on_new
    nop = Builtin('trace', lambda I, a, kw: None)
    I.overrides['trace__ps_'] = nop
    I.overrides['callee'] = Builtin('callee', lambda I, a, kw: rulename(I))
    I.overrides['feedback'] = nop
    log = Obj(I.builtin_classes['object'])
    I.overrides['log'] = LogModel()
    I.lib_hook = lib_hook
    for n in LEGS:
        I.contracts[n] = PS(n)
    for n in ALWAYS + BLANKS:
        I.contracts[n] = PS(n)
    I.contracts['ps_plain'] = PlainGen()
    I.contracts['ps_header_python'] = Header()
    I.contracts['ps_text'] = TextGen()
    for n in ('_import_source', '_import_python', '_import_eval', 'yuparse'):
        I.contracts[n] = Import(n)
    I.contracts['SOURCE.loc'] = Loc()
    I.contracts['RESULT.clean'] = Nop()
    I.overrides['RESULT'] = LibModule('RESULT')
    I.sym_field = sym_field
    I.func_attr = func_attr
    I.hints = hints
    I.append_hook = lambda I, o, v: located(I, v, 'stored in a list') if I.ghost.get('P') is not None else None


def sym_field(I, o, name):
    P = I.ghost.get('P')
    I.narrow(o)
    if name == 'atom' and o.classes == {'VAR'} and o.ghost.get('located') and P is not None:
        x, y = I.fint('x').t, I.fint('y').t
        I.assume(z3.And(0 <= x, x < y, y <= P.text.n))
        o.fields['atom'] = I.new('ATOM', SStr([View(P.text, x, y)]), input_file=P.file, pos=SInt(x))
        return o.fields['atom']
    if name == 'ast' and o.classes == {'TEXT'} and o.ghost.get('located'):
        o.fields['ast'] = Obj(I.builtin_classes['list'], I.sym_list(('seq',), 'ast'))
        return o.fields['ast']
    return NotImplemented


class Nop:
    name = 'nop'

    def apply(self, I, args, fn):
        return None


class Loc:
    """SOURCE.loc: a string (what it says is C06); needs a valid source."""
    name = 'SOURCE.loc'

    def apply(self, I, args, fn):
        v = args['self']
        if is_source(I, v) or isinstance(v, Obj) and isinstance(v.payload, str):
            if is_source(I, v):
                valid_at(I, v, 'location of a diagnostic')
        else:
            raise Unsupported('loc of an unknown source')
        return I.ostr('loc')


def valid_at(I, v, label):
    P = I.ghost['P']
    w = I.view(v.payload)
    I.oblige(label + ': its offset', I.it(v.fields['pos']) == w.a)
    q = I.eq(v.fields['input_file'], P.file)
    I.oblige(label + ': its file', q if isinstance(q, bool) else q.t)


class LogModel(LibModule):
    def __init__(self):
        LibModule.__init__(self, 'log')


def hints(I, ctx, vals, ints, views):
    """Candidate loop invariants (each one is proved or dropped)."""
    out = []
    for n, v in sorted(vals.items()):
        if isinstance(v, GenObj) and 'k' in v.g:
            end = I.it(v.g['a']) + I.it(v.g['k'])
            for w, x in sorted(views.items()):
                out.append(('%s at %s' % (n, w), end == x.a))
                out.append(('%s from %s' % (n, w), I.it(v.g['a']) >= x.a))
            out.append(('%s after start' % n, I.it(v.g['a']) >= I.ghost['a0']))
            out.append(('%s missed no end' % n, z3.Not(I.bt(v.g['missed']))))
            out.append(('%s starts after )' % n, char(I, I.it(v.g['a']) - 1) == ord(')')))
        elif isinstance(v, GenObj) and 'm' in v.g:
            for w, x in sorted(views.items()):
                out.append(('%s at %s' % (n, w), I.it(v.g['a']) == x.a))
            out.append(('%s after start' % n, I.it(v.g['a']) >= I.ghost['a0']))
    h = I.ghost.get('more_hints')
    if h is not None:
        out.extend(h(I, ctx, vals, ints, views))
    if '%last' in ints:
        for w, x in sorted(views.items()):
            out.append(('last before %s' % w, ints['%last'] < x.a))
    return out


def lib_hook(I, key):
    if key.startswith('log.') or key == 'RESULT.clean':
        return Builtin(key, lambda I, a, kw: None)
    if key.startswith('os.path.'):
        n = key[8:]
        if n in ('basename', 'dirname', 'join', 'normpath', 'abspath'):
            return Builtin(key, lambda I, a, kw: I.ostr(n))
        if n in ('splitext', 'split'):
            return Builtin(key, lambda I, a, kw: (I.ostr('p'), I.ostr('e')))
    if key in ('ast.literal_eval', 'codecs.unicode_escape_decode'):
        def conv(I, a, kw):
            if I.choose(2):
                I.throw('SyntaxError' if key[0] == 'a' else 'ValueError', 'literal')
            return I.ostr('value') if key[0] == 'a' else (I.ostr('value'), I.fint('n'))
        return Builtin(key, conv)
    return None


YUSHELL = {'output_python': 'bool', 'pp_skip_comments': 'int', 'input_file': 'str', 'shrink': 'int'}


def func_attr(I, o, name):
    if o.qual == 'yushell':
        k = YUSHELL.get(name)
        if k == 'bool':
            return I.fbool(name)
        if k == 'int':
            v = I.fint(name)
            if name == 'pp_skip_comments':
                I.assume(z3.And(v.t >= 0, v.t <= 2))
            return v
        if k == 'str':
            return I.ostr(name)
    if o.qual == 'ps_string_python' and not I.ghost.get('yuinit'):
        # set by yuinit(): run it
        I.ghost['yuinit'] = True
        ys = I.module_get(I.prog.module('pp.yugen'), 'yushell')
        save = ys.attrs.get('output_python')
        ys.attrs['output_python'] = True
        o.attrs.setdefault('initialized', False)
        I.call(I.module_get(I.prog.module('pp.yugen'), 'yuinit'), [])
        if save is not None:
            ys.attrs['output_python'] = save
        else:
            ys.attrs.pop('output_python', None)
        if name in o.attrs:
            return o.attrs[name]
    return NotImplemented


# ---------------------------------------------------------------------------------
def verify_ps(I, name, extra=None):
    """Verify the body of the parsing function `name` against its contract."""
    m = I.prog.module('pp.yugen')

    def run(I):
        a = start(I)
        I.ghost['fn'] = name
        I.ghost['a0'] = a
        fn = I.module_get(m, name)
        sou = source(I, a)
        I.cover('precondition')
        ct = I.contracts[name]
        try:
            ret = I.run_func(fn, [sou, I.fint('depth')], {})
        except PyRaise as e:
            check_raise(I, e)
            I.cover('diagnostic')
            return
        I.cover('normal end')
        ct.check(I, a, ret)
        if extra:
            extra(I, a, ret)
    I.want_termination = True
    return I.verify(name, run)


def yields_in(fnode):
    """Loops of the function that contain a yield."""
    import ast
    out = []
    for n in ast.walk(fnode):
        if isinstance(n, (ast.While, ast.For)) and any(isinstance(x, ast.Yield) for x in ast.walk(n)):
            out.append(n)
    return out


def verify_gen(I, name, extra=None):
    """Verify the body of a generator against its yield contract."""
    m = I.prog.module('pp.yugen')
    node = I.prog.func_node('pp.yugen', name)
    for l in yields_in(node):
        l.hidden = ('%k', '%ds', '%dp', '%last', '%cover')

    def run(I):
        a = start(I)
        P = I.ghost['P']
        I.ghost['fn'] = name
        I.ghost['a0'] = a
        fn = I.module_get(m, name)
        sou = source(I, a)
        I.cover('precondition')
        if name == 'ps_plain':
            ds, dp = I.fint('pth_sq'), I.fint('pth')
            I.assume(z3.And(ds.t >= 0, dp.t >= 0))
            ik = I.choose(3)
            indent = [None, '', False][ik]
            args = [sou, ds, dp, indent, I.fint('depth')]
            ghost = {'%k': 0, '%ds': ds, '%dp': dp}
        else:
            args = [sou, I.fint('depth')]
            ghost = {'%last': SInt(z3.IntVal(-1))}

        def spec(I, v):
            fr = I.frames[-1]
            I.cover('yield')
            if name == 'ps_plain':
                if not isinstance(v, tuple) or len(v) != 4:
                    I.oblige('yields four values', False)
                rest, leg, s1, p1 = v
                k = I.it(fr.vars['%k'])
                r = valid(I, rest, 'yielded rest')
                I.oblige('the k-th value leaves sou[k:]', r == a + k + 1)
                c = char(I, a + k)
                step = depth_step(c)
                eds, edp = step(I.it(fr.vars['%ds']), '[', ']'), step(I.it(fr.vars['%dp']), '(', ')')
                I.oblige('depth of square brackets', I.it(s1) == eds)
                I.oblige('depth of brackets', I.it(p1) == edp)
                located(I, leg, 'yielded text')
                w = I.view(leg.payload) if isinstance(leg, Obj) else None
                I.oblige('the k-th text is sou[:k]', w is not None and z3.And(w.a == a, w.b == a + k + 1))
                I.oblige('yields PLAIN', leg.cls.name == 'PLAIN')
                fr.vars['%k'] = SInt(k + 1)
                fr.vars['%ds'], fr.vars['%dp'] = SInt(eds), SInt(edp)
            else:
                if not isinstance(v, tuple) or len(v) != 2:
                    I.oblige('yields two values', False)
                rest, leg = v
                r = valid(I, rest, 'yielded rest')
                last = I.it(fr.vars['%last'])
                I.oblige('not before the start', r >= a)
                I.oblige('each value after the first is further', z3.Implies(last >= 0, r > last))
                I.oblige('yields TEXT', isinstance(leg, Obj) and leg.cls.name == 'TEXT')
                for f in ('depth_pth_sq', 'depth_pth'):
                    if f in leg.fields:
                        I.oblige('depths are not negative', I.it(leg.fields[f]) >= 0)
                fr.vars['%last'] = SInt(r)
            if extra:
                extra(I, a, v)
            return None
        vals = I.bind(fn, args, {})
        vals.update(ghost)
        try:
            I.run_body(fn, vals, spec)
        except PyRaise as e:
            check_raise(I, e)
            I.cover('diagnostic')
            return
        I.oblige('the generator does not end', False)
    I.want_termination = True
    return I.verify(name, run)


class Table:
    """yushell.source: file name -> ( declaration, text ); the parsed file is bound to T."""

    def has(self, I, k):
        return True

    def get(self, I, k):
        return (I.ostr('decl'), I.ghost['src'])


def verify_yuparse(I):
    m = I.prog.module('pp.yugen')

    def run(I):
        start(I)
        P = I.ghost['P']
        I.ghost['fn'] = 'yuparse'
        P.a0 = z3.IntVal(0)
        I.ghost['a0'] = z3.IntVal(0)
        I.ghost['src'] = SStr([View(P.text, z3.IntVal(0), P.text.n)])
        ys = I.module_get(m, 'yushell')
        ys.attrs['source'] = Obj(I.builtin_classes['dict'], DictP(base=Table()))
        fn = I.module_get(m, 'yuparse')
        I.cover('precondition')
        try:
            ret = I.run_func(fn, [P.file], {})
        except PyRaise as e:
            check_raise(I, e)
            I.cover('diagnostic')
            return
        I.cover('normal end')
        I.oblige('yields TEXT', isinstance(ret, Obj) and ret.cls.name == 'TEXT')
    I.want_termination = True
    return I.verify('yuparse', run)


def verify_echo(I, name='echo__ps_'):
    """The tracing decorator passes the call through: wrapped( sou, depth ) is fn( sou, depth )."""
    m = I.prog.module('pp.yugen')

    def run(I):
        calls = []
        sou, depth, ret = I.ostr('sou'), I.fint('depth'), I.sym(None, 'ret')
        env = I.sym(None, 'env')
        exc = []

        def target(I, a, kw):
            calls.append((tuple(a), dict(kw)))
            if I.choose(2):
                o = Obj(I.builtin_classes['Exception'])
                exc.append(o)
                raise PyRaise(o.cls, ('x',), obj=o)
            return ret
        t = Builtin('fn', target)
        t.attrs['__name__'] = 'fn'
        I.overrides['trace__eval_in_'] = I.overrides['trace__eval_out_'] = Builtin('t', lambda I, a, kw: None)
        w = I.run_func(I.module_get(m, name), [t], {})
        args = [sou, depth] if name == 'echo__ps_' else [sou, env, depth]
        I.cover('precondition')
        try:
            r = I.call(w, args)
        except PyRaise as e:
            I.oblige('raises what the function raises', bool(exc) and e.obj is exc[0] or len(calls) == 1 and e.args_ == ('x',))
            return
        I.cover('normal end')
        I.oblige('returns what the function returns', r is ret)
        I.oblige('calls it once with the same arguments', len(calls) == 1 and len(calls[0][0]) == len(args) and not calls[0][1]
                 and all(x is y for x, y in zip(calls[0][0], args)))
    return I.verify(name, run)


PARSERS = ['ps_space', 'ps_eol', 'ps_gap', 'ps_atom', 'ps_remark_c', 'ps_remark_python', 'ps_set', 'ps_let', 'ps_binding',
           'ps_import', 'ps_macro', 'ps_emit', 'ps_application', 'ps_function', 'ps_variable', 'ps_lambda', 'ps_value',
           'ps_form', 'ps_former', 'ps_l_form', 'ps_code', 'ps_list', 'ps_infix', 'ps_quote', 'ps_string_python',
           'ps_comment', 'ps_number', 'ps_header_python', 'ps_plain', 'ps_text', 'yuparse', 'echo__ps_']


def verify(I, name, extra=None):
    if name in ('ps_plain', 'ps_text'):
        return verify_gen(I, name, extra)
    if name == 'yuparse':
        return verify_yuparse(I)
    if name.startswith('echo__'):
        return verify_echo(I, name)
    return verify_ps(I, name, extra)
