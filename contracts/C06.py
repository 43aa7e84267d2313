"""C06: _loc() for any text, any offset and any table of sources: the line is the one that
contains the offset, its number is one plus the number of line ends before the offset, the
pointer stands under the character.  The location of a place in the text of an expansion is
preceded by those of its call and of its declaration, by the contract of _loc itself."""
import z3
from pyvc.values import *
from pyvc.models import PYSPACE, in_ranges, n_before
from pyvc import lang as L
from . import evalmodel as E

PLACE = z3.Function('location', U, z3.IntSort(), z3.BoolSort(), U)


def match(I, got, parts, what):
    """The pieces of a rope are as expected: a constant, or ( kind of piece, may it be absent,
    what holds of it ); adjacent constants are one piece."""
    ps = [got] if isinstance(got, str) else list(got.ps)
    ps = [p for p in ps if not (isinstance(p, View) and I.must(p.a == p.b)) and not (isinstance(p, OStr) and I.must(p.n == 0))]
    want = []
    for p in parts:
        if isinstance(p, str) and want and isinstance(want[-1], str):
            want[-1] += p
        else:
            want.append(p)
    i = 0
    for w in want:
        if isinstance(w, str):
            if i >= len(ps) or not isinstance(ps[i], str):
                raise Unsupported('a text of another form')
            I.oblige('%s: the fixed text' % what, ps[i] == w)
            i += 1
        else:
            k, opt, check = w
            if i < len(ps) and isinstance(ps[i], k):
                check(ps[i])
                i += 1
            elif opt:
                check(None)
            else:
                raise Unsupported('a text of another form')
    if i != len(ps):
        raise Unsupported('a text of another form')


def target(I, text, pos, name, kind, pointer):
    """What is expected of the location of an offset in a text."""
    n = text.n
    arr = text.arr
    j = z3.Int('j!s')
    # the line that contains the offset
    b, e = I.fint('line.begin').t, I.fint('line.end').t
    I.assume(z3.And(0 <= b, b <= pos, pos <= e, e <= n))
    I.assume(z3.Or(b == 0, z3.Select(arr, b - 1) == 10))
    I.assume(z3.Or(e == n, z3.Select(arr, e) == 10))
    I.assume(z3.ForAll([j], z3.Implies(z3.And(b <= j, j < e), z3.Select(arr, j) != 10), patterns=[z3.Select(arr, j)]))
    number = n_before(I, text, 10, pos) + 1
    x = I.fint('indent').t
    I.assume(z3.And(b <= x, x <= e))
    I.assume(z3.ForAll([j], z3.Implies(z3.And(b <= j, j < x), in_ranges(z3.Select(arr, j), PYSPACE)), patterns=[z3.Select(arr, j)]))
    I.assume(z3.Or(x == e, z3.Not(in_ranges(z3.Select(arr, x), PYSPACE))))

    def line_number(p):
        I.oblige('the line number is one plus the number of line ends before the offset', p.t == z3.IntToStr(number))

    def line(p):
        if p is None:
            I.oblige('the line is shown', x == e)
        else:
            I.oblige('the text is that of the source', p.text is text)
            I.oblige('the line shown is the one of the offset, without its indentation', z3.Or(z3.And(p.a == x, p.b == e), z3.And(p.a == p.b, x == e)))

    def blanks(p):
        if p is None:
            I.oblige('the pointer stands under the character', pos <= x)
            return
        d = p.u.decl()
        if d.name() != 'repeat':
            raise Unsupported('blanks of another form')
        I.oblige('the pointer stands under the character', z3.And(p.u.arg(0) == I.boxS(z3.StringVal(' ')), p.n == z3.If(pos > x, pos - x, 0)))
    out = ['\n  %s "' % kind] + name + ['", line ', (ZStr, False, line_number), '\n    ', (View, True, line)]
    if pointer:
        out += ['\n    ', (OStr, True, blanks), '^']
    return out


def loc(place, called, pointer):
    def unit(I):
        def body(I):
            m = I.prog.module('pp.yugen')
            fn = I.module_get(m, '_loc')
            text = Text('source')
            I.assume(text.n >= 0)
            sou = SStr([View(text, z3.IntVal(0), text.n)])
            if place != 'file' and I.choose(2):
                sou = I.new('STR', sou)
                sou.fields.update(input_file=I.ostr('a file'), pos=I.fint('a pos'))
            pos = I.fint('pos').t
            I.assume(z3.And(0 <= pos, pos <= text.n))
            inc = I.module_get(m, 'SOURCE_INCLUSION')
            number = I.fint('number').t
            digits = SStr([OStr(I.fu('digits'), I.fint('digits.len').t)])
            I.assume(z3.And(digits.ps[0].n >= 1, number >= 0))
            if place == 'file':
                name = SStr([L.piece(I, 'name', r'[^\0]+')])
            else:
                name = SStr([inc] + list(digits.ps))

            def to_int(I, s, a):
                ps = s.ps if isinstance(s, SStr) else ()
                if len(ps) == 1 and isinstance(ps[0], OStr) and ps[0].u is digits.ps[0].u and not a:
                    return SInt(number)
                raise Unsupported('a number of another text')
            I.int_hook = to_int
            # declarations and calls have a file and a position
            def place_of(what):
                f = SStr([OStr(I.fu(what + ' file'), I.fint(what + ' file.len').t)])
                q = I.fint(what + ' pos')
                t = SStr([OStr(I.fu(what + ' text'), I.fint(what + ' text.len').t)])
                I.assume(z3.And(f.ps[0].n >= 1, q.t >= 0, t.ps[0].n >= 1))
                o = I.new('ATOM', t)
                o.fields.update(input_file=f, pos=q)
                return o, f, q, t
            decl, df, dq, dt = place_of('decl')
            call, cf, cq, ct = place_of('call')
            shown = name
            if place == 'file':
                w = I.choose(3)
                decl = [None, '', dt][w]
                shown = dt if w == 2 else name
            src = Obj(I.builtin_classes['dict'], DictP({}))

            def getitem(I, o, k):
                ks = I.strval(k)
                if ks is not name and not (isinstance(ks, SStr) and len(ks.ps) == len(name.ps) and all(p is q for p, q in zip(ks.ps, name.ps))):
                    I.oblige('the source looked up is that of the place', False)
                return (decl, sou)
            src.ghost.update(getitem=getitem, methods={'get': lambda I, o, a, kw: getitem(I, o, a[0])})
            incs = Obj(I.builtin_classes['list'], ListP('conc', items=[]))

            def inclusion(I, o, k):
                I.oblige('the call looked up is that of the expansion', I.it(k) == number)
                return call if called else None
            incs.ghost.update(getitem=inclusion)
            ys = I.module_get(m, 'yushell')
            ys.attrs = dict(ys.attrs, source=src, inclusion=incs)

            def nested(I, a, kw):
                a = list(a) + [kw[k] for k in ('input_file', 'pos', 'pointer')[len(a):] if k in kw]
                f = I.strval(a[0])
                ptr = a[2] if len(a) > 2 else True
                if not (isinstance(f, SStr) and len(f.ps) == 1 and isinstance(f.ps[0], OStr)):
                    I.oblige('a location of the call or of the declaration', False)
                if not isinstance(ptr, bool):
                    raise Unsupported('pointer')
                n = I.fint('location.len').t
                I.assume(n >= 1)
                return SStr([OStr(PLACE(f.ps[0].u, I.it(a[1]), z3.BoolVal(ptr)), n)])
            I.overrides['_loc'] = Builtin('_loc', nested)
            try:
                args = [name, SInt(pos)] + ([] if pointer is None else [pointer])
                r = I.run_func(fn, args, {})
            except PyRaise as ex:
                I.oblige('no exception (%s)' % ex.cls.name, False)
            I.cover('a location')
            s = I.strval(r)
            if s is None:
                I.oblige('a location is a text', False)
            want = []

            def other(f, q, what):
                def check(p):
                    I.oblige('the location of the %s comes before, without a pointer' % what, p.u == PLACE(f.ps[0].u, q.t, z3.BoolVal(False)))
                return (OStr, False, check)

            def exactly(t):
                def check(p):
                    I.oblige('the name of the source', p.u == t.ps[0].u)
                return (OStr, False, check)
            if place == 'expansion':
                if called:
                    want.append(other(cf, cq, 'call'))
                want.append(other(df, dq, 'declaration'))
                want += target(I, text, pos, [exactly(dt)], 'Macro', pointer is not False)
            else:
                want += target(I, text, pos, [exactly(shown)], 'File', pointer is not False)
            match(I, s, want, 'location')
        return I.verify('_loc', body)
    return unit


def place_fields(I, name):
    f = SStr([OStr(I.fu(name + ' file'), I.fint(name + ' file.len').t)])
    I.assume(f.ps[0].n >= 1)
    q = I.fint(name + ' pos')
    I.assume(q.t >= 0)
    return f, q


def part(I):
    """A part of a source text knows the file and the offset of its own beginning."""
    def body(I):
        text = Text('source')
        a, b = I.fint('a').t, I.fint('b').t
        I.assume(z3.And(0 <= a, a <= b, b <= text.n))
        cls = ['SOURCE', 'STR', 'ATOM', 'PLAIN'][I.choose(4)]
        f, q = place_fields(I, 'source')
        o = I.new(cls, SStr([View(text, a, b)]))
        o.fields.update(input_file=f, pos=q)
        if cls == 'PLAIN':
            o.fields.update(indent=None, trim=False)
        lo, hi = I.fint('from'), I.fint('to')
        n = b - a
        I.assume(z3.And(0 <= lo.t, lo.t <= n, 0 <= hi.t))
        w = I.choose(4)
        try:
            if w == 0:
                I.assume(lo.t < n)
                r, x, y = I.getitem(o, lo), lo.t, lo.t + 1
            else:
                s = [None, Slice(lo, hi, None), Slice(lo, None, None), Slice(None, hi, None)][w]
                x = z3.IntVal(0) if w == 3 else lo.t
                y = n if w == 2 else z3.If(hi.t < n, hi.t, n)
                y = z3.If(y > x, y, x)
                r = I.getitem(o, s)
        except PyRaise as ex:
            I.oblige('no exception (%s)' % ex.cls.name, False)
        I.cover('a part')
        I.oblige('a part is a source text', isinstance(r, Obj) and r.cls.name == 'SOURCE')
        v = I.view(I.strval(r))
        if v is None:
            raise Unsupported('a part that is no view')
        I.oblige('the part consists of the characters asked for', z3.Or(z3.And(x == y, v.a == v.b), z3.And(v.a == a + x, v.b == a + y)))
        I.oblige('of the same file', I.strval(r.fields['input_file']) is f or I.box(r.fields['input_file']) == f.ps[0].u)
        I.oblige('at the offset of its first character', z3.Or(x == n, I.it(r.fields['pos']) == q.t + x))
    return I.verify('SOURCE', body)


def location(I):
    """loc() of a source text is the location of its offset."""
    def body(I):
        f, q = place_fields(I, 'source')
        o = I.new(['SOURCE', 'STR', 'ATOM'][I.choose(3)], I.ostr('text'))
        o.fields.update(input_file=f, pos=q)
        ans = I.ostr('location')
        calls = []

        def loc(I, a, kw):
            calls.append((list(a) + [None, None])[:2])
            if len(a) < 2 or len(a) > 2 and a[2] is not True:
                raise Unsupported('location')
            return ans
        I.overrides['_loc'] = Builtin('_loc', loc)
        r = I.call(I.getattr(o, 'loc'), [])
        I.cover('location')
        ok = len(calls) == 1 and r is ans
        I.oblige('the location is made by _loc', ok)
        I.oblige('the location is that of the text', z3.And(I.box(calls[0][0]) == f.ps[0].u, I.it(calls[0][1]) == q.t))
    return I.verify('loc', body)


class Table:
    """yushell.source and yushell.inclusion: what is put there."""

    def __init__(self, I):
        self.n = I.fint('expansions').t
        I.assume(self.n >= 0)
        m = I.prog.module('pp.yugen')
        ys = I.module_get(m, 'yushell')
        self.added, self.set = [], []
        inc = Obj(I.builtin_classes['list'], ListP('fn', n=self.n, get=lambda k: I.sym(None, 'call')))
        inc.ghost['append'] = lambda I, o, x: self.added.append(x)
        src = Obj(I.builtin_classes['dict'], DictP({}))
        src.ghost['setitem'] = lambda I, o, k, v: self.set.append((k, v))
        ys.attrs = dict(ys.attrs, source=src, inclusion=inc)
        self.inc = I.module_get(m, 'SOURCE_INCLUSION')

    def recorded(self, I, key, decl, text, call):
        """The expansion is in the table under the key."""
        I.oblige('one expansion is recorded', len(self.added) == 1 and len(self.set) == 1)
        I.oblige('with its call', self.added[0] is call)
        k, v = self.set[0]
        ks, kk = I.strval(k), I.strval(key)
        ok = ks is not None and kk is not None
        I.oblige('under its key', ok and I.bt(I.str_eq(ks, kk)))
        want = I.mkstr([self.inc] + list(I.str_of(SInt(self.n)).ps))
        I.oblige('the key is the number of the expansion, marked', I.bt(I.str_eq(ks, want)))
        if not (isinstance(v, tuple) and len(v) == 2):
            I.oblige('a source is a declaration and a text', False)
        I.oblige('with its declaration', decl(v[0]))
        I.oblige('with its text', text(v[1]))


def import_eval(I):
    """An evaluated import records the code as its declaration and the result as its text."""
    def body(I):
        I.overrides['ast.NodeVisitor'] = Class('NodeVisitor', [I.builtin_classes['object']], {}, builtin=True)
        T = Table(I)
        f, q = place_fields(I, 'infix')
        code, res = I.ostr('code'), I.sym(None, 'result')
        inner = I.new('TEXT', None)
        inner.fields.update(ast=I.new_list([code]))
        infix = E.node(I, 'INFIX', ast=inner)
        infix.fields.update(input_file=f, pos=q)
        done = []

        def ev(I, a, kw):
            done.append(a[0])
            return res
        I.overrides['eval'] = Builtin('eval', ev)
        try:
            r = I.run_func(I.module_get(I.prog.module('pp.yugen'), '_import_eval'), [infix], {})
        except PyRaise as ex:
            I.oblige('no exception (%s)' % ex.cls.name, False)
        I.cover('imported')

        def is_code(d):
            return isinstance(d, Obj) and I.strval(d) is not None and I.box(I.strval(d)) == I.box(code)
        I.oblige('the code is evaluated once', len(done) == 1)
        I.oblige('as it is written', is_code(done[0]))
        shown = I.str_of(res)
        T.recorded(I, r, is_code, lambda t: I.bt(I.str_eq(I.strval(t), shown)), None)
        d = T.set[0][1][0]
        I.oblige('the declaration has the place of the code', z3.And(I.box(d.fields['input_file']) == f.ps[0].u, I.it(d.fields['pos']) == q.t))
    return I.verify('_import_eval', body)


def evaluated(I):
    """The step of yueval() on an evaluated text: it is parsed under a key with its call and
    its declaration."""
    def body(I):
        S = E.Step(I)
        T = Table(I)
        env = E.env(I)
        text = I.ostr('text')
        call, decl = I.new('ATOM', I.ostr('call')), I.new('ATOM', I.ostr('decl'))
        src = I.sym(['APPLY', 'VAR', 'TEXT', 'STR', 'LAMBDA'], 'ast')
        n = E.node(I, 'EVAL', ast=src, decl=decl, call=call)
        S.on_eval = lambda I, x, e: text if x is src else NotImplemented
        parsed = []

        class Stop(Exception):
            pass

        def parse(I, a, kw):
            parsed.append(a[0])
            T.recorded(I, a[0], lambda d: d is decl, lambda t: I.bt(I.str_eq(I.strval(t), text)), call)
            return I.new('TEXT', None, ast=I.new_list([]))
        I.overrides['yuparse'] = Builtin('yuparse', parse)
        S.run(n, env)
        I.cover('evaluated')
        I.oblige('the text is parsed once', len(parsed) == 1)
    return I.verify('yueval.EVAL', body)


UNITS = [('_loc %s%s%s' % (p, ' called' if c else '', {None: '', True: ' pointer', False: ' no pointer'}[q]), loc(p, c, q))
         for p, c in (('file', False), ('expansion', False), ('expansion', True)) for q in (None, True, False)] + \
    [('SOURCE', part), ('SOURCE.loc', location), ('_import_eval', import_eval), ('yueval.EVAL', evaluated)]
TRUSTED = ['str.find, str.split, str.count, str.lstrip as modelled (first occurrence; pieces between separators; white space)']
ASSUMPTIONS = ['an offset lies within its text (C01)', 'the table of sources has an entry for every file and expansion']
