"""C08: the tables that lead back from a position of the result: how they are made, put together
and looked up."""
import ast
import z3
from pyvc.values import *
from contracts import C07, C09
from contracts import shellmodel as Sh
from pyvc import lang as L

IntS = z3.IntSort()
PLUGIN = 'sublime_text.Data.Packages.yupp.yupp'


def table(I, name, k=2):
    return Obj(I.builtin_classes['list'], I.sym_list(('tup', k), name))


def as_table(I, o, k=2):
    p = o.payload
    return I.to_kind(p, ('tup', k)) if p.kind == 'conc' else p


def increasing(p):
    i, j = z3.Ints('i!q j!q')
    return z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < p.n), z3.Select(p.arrs[0], i) <= z3.Select(p.arrs[0], j)))


def bisect(module):
    """The number of entries that are not after the position."""
    def run(I):
        def body(I):
            C07.classes(I)
            m = I.prog.module(module)
            lst = table(I, 'table', 3 if I.choose(2) else 2)
            p = lst.payload
            x = I.fint('x')
            I.assume(increasing(p))
            j = z3.Int('j!q')
            upto = lambda t: z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < t, j < p.n), z3.Select(p.arrs[0], j) <= x.t))
            after = lambda t: z3.ForAll([j], z3.Implies(z3.And(j >= t, j >= 0, j < p.n), x.t < z3.Select(p.arrs[0], j)))

            def hints(I, ctx, vals, ints, views):
                out = []
                for a, v in sorted(vals.items()):
                    if isinstance(v, (int, SInt)) and not isinstance(v, bool):
                        t = I.it(v)
                        out += [('entries before %s are not after' % a, upto(t)), ('entries from %s are after' % a, after(t)), ('%s is a place' % a, z3.And(0 <= t, t <= p.n))]
                return out
            I.hints = hints
            r = I.run_func(I.module_get(m, '_bisect'), [lst, x], {})
            I.cover('found')
            t = I.it(r)
            I.oblige('a place in the table', z3.And(0 <= t, t <= p.n))
            I.oblige('the entries before are not after the position', upto(t))
            I.oblige('the entry there is after the position', after(t))
        return I.verify('_bisect', body)
    return run


def add_text(I):
    def body(I):
        m, conf = C07.classes(I)
        la, lb = I.ostr('text'), I.ostr('other')
        a = I.new('RESULT', la, browse=table(I, 'browse', 3), offset=table(I, 'offset'))
        b = I.new('RESULT', lb, browse=table(I, 'other browse', 3), offset=table(I, 'other offset'))
        br, of, br2, of2 = [x.payload.copy() for x in (a.fields['browse'], a.fields['offset'], b.fields['browse'], b.fields['offset'])]
        n = la.ps[0].n
        base = z3.If(of.n > 0, z3.Select(of.arrs[1], of.n - 1), 0)
        j = z3.Int('j!q')

        def joined(p, x, y, shifts, t):
            """p has all of x and then t entries of y, shifted."""
            fs = [p.n == x.n + t]
            for q, u, v, d in zip(p.arrs, x.arrs, y.arrs, shifts):
                fs.append(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < x.n), z3.Select(q, j) == z3.Select(u, j))))
                fs.append(z3.ForAll([j], z3.Implies(z3.And(x.n <= j, j < x.n + t), z3.Select(q, j) == z3.Select(v, j - x.n) + d)))
            return z3.And(*fs)
        offs = lambda p, t: joined(p, of, of2, (n, base), t)
        brs = lambda p, t: joined(p, br, br2, (n + base, 0, 0), t)

        def hints(I, ctx, vals, ints, views):
            out = []
            t = [x for k, x in sorted(ints.items()) if k == ctx['idx']]
            for w, k in [('here', t[0])] * bool(t) + [('not begun', z3.IntVal(0)), ('of all', of2.n)]:
                for v, o in sorted(vals.items()):
                    p = o.payload if isinstance(o, Obj) else None
                    if isinstance(p, ListP) and p.kind == 'tup' and p.k == 2:
                        out.append(('%s has the offsets %s' % (v, w), offs(p, k)))
                    elif isinstance(p, ListP) and p.kind == 'tup' and p.k == 3:
                        out.append(('%s has the references %s' % (v, w), brs(p, k)))
            return out
        I.hints = hints
        I.hints_only = True
        r = I.call(I.getattr(a, 'add_text'), [b], {})
        if not isinstance(r, Obj) or r.cls.name != 'RESULT':
            I.oblige('the result has references', False)
        if r is a:
            I.cover('nothing added')
            I.oblige('only an empty text is left out', lb.ps[0].n == 0)
            return
        I.cover('added')
        I.oblige('the text of both', I.box(I.strval(r)) == I.catU(I.box(la), I.box(lb)))
        I.oblige('the offsets of the first, those of the other further on', offs(as_table(I, r.fields['offset']), of2.n))
        I.oblige('the references of the first, those of the other further on', brs(as_table(I, r.fields['browse'], 3), br2.n))
    return I.verify('RESULT.add_text', body)


def lookup(pos, val, n, x, r):
    """r is the place of x in the table; what the table says there."""
    at = z3.And(0 <= r, r <= n, z3.Or(r == 0, z3.Select(pos, r - 1) <= x), z3.Or(r == n, x < z3.Select(pos, r)))
    return at, z3.If(r == 0, z3.IntVal(0), z3.Select(val, r - 1))


def lines_dropped(I):
    """The table of C07: any character of a line kept is found (by induction over the lines)."""
    def body(I):
        B = z3.Function('blank', IntS, z3.BoolSort())
        S = C07.Lines(I, lambda k: B(k), lambda k: C07.LINE(k))
        S.table = True
        ln = lambda k: I.strlenU(C07.LINE(k))
        t, x, r, k = [I.fint(n).t for n in ('t', 'x', 'r', 'k')]
        I.assume(z3.And(t >= 0, ln(t) >= 1, ln(k) >= 1))
        S.unfold(t)
        S.unfold(t - 1)

        def claims(t):
            pos, val, n = C07.TPOS(t), C07.TDEL(t), C07.NUM(t)
            at, v = lookup(pos, val, n, x, r)
            here = z3.And(0 <= k, k < t, S.keep(k))
            return [('the table and the lengths agree', S.facts(t)),
                    ('no entry is after the lines so far', z3.Implies(z3.And(0 <= r, r < n), z3.Select(pos, r) <= C07.OPOS(t))),
                    ('the last entry is the length dropped', C07.DEL(t) == z3.If(n > 0, z3.Select(val, n - 1), 0)),
                    ('a line kept ends before the next', z3.Implies(here, C07.OPOS(k) + ln(k) <= C07.OPOS(t))),
                    ('a character of a line kept is found', z3.Implies(z3.And(here, C07.OPOS(k) <= x, x < C07.OPOS(k) + ln(k), at), v == C07.DEL(k)))]
        zero = [z3.substitute(f, (t, z3.IntVal(0))) for _, f in claims(t)]
        I.cover('lines')
        for (n, f), z in zip(claims(t), zero):
            I.oblige(n + ': no lines', z, assume=False)
        for n, f in claims(t):
            I.assume(f)
        # the claim about the other places of the table that the step needs
        for q in (C07.NUM(t) - 1, r - 1):
            I.assume(z3.Implies(z3.And(0 <= q, q < C07.NUM(t)), z3.Select(C07.TPOS(t), q) <= C07.OPOS(t)))
        for n, f in claims(t + 1):
            I.oblige(n + ': one line more', f, assume=False)
        IPOS = z3.Function('position of line', IntS, IntS)
        I.assume(z3.And(IPOS(t) == C07.OPOS(t) + C07.DEL(t), IPOS(t + 1) == IPOS(t) + ln(t)))
        I.oblige('lengths kept and dropped make the position in the text before', IPOS(t + 1) == C07.OPOS(t + 1) + C07.DEL(t + 1))
        I.cover('end of the step')
    return I.verify('table of lines dropped', body)


def lines_indented(I):
    """The table of C09: any character of the expansion that is kept is found."""
    def body(I):
        ind = I.ostr('indent')
        S = C09.Lines(I, ind)
        S.m = I.fint('lines').t
        ln = lambda k: I.strlenU(C09.LINE(k))
        t, e, x, r, k = [I.fint(n).t for n in ('t', 'e', 'x', 'r', 'k')]
        c, il = S.c, S.il
        # a line that is not blank has more than what is shared
        for q in (t, k):
            I.assume(z3.And(ln(q) >= 1, z3.Implies(z3.Not(S.blank(q)), c < ln(q))))
        I.assume(z3.And(t >= 0, t < S.m, il >= 0))
        S.unfold(t)
        S.unfold(k)
        OP, TOT, NUM, T0, T1 = C09.OP, C09.TOT, C09.NUM, C09.T0, C09.T1
        added = lambda k: z3.If(z3.And(z3.Not(S.blank(k)), k > 0), il, 0)

        def claims(t, e):
            pos, val, n = T0(t, e), T1(t, e), NUM(t) + e
            at, v = lookup(pos, val, n, x, r)
            here = z3.And(0 <= k, k < t)
            return [('as many entries', NUM(t) >= 0),
                    ('every entry is before the end', z3.Implies(z3.And(0 <= r, r < n), z3.Select(pos, r) < OP(t) + e)),
                    ('the last entry is the length removed', TOT(t) - e == z3.If(n > 0, z3.Select(val, n - 1), 0)),
                    ('a line ends before the next', z3.Implies(here, OP(k + 1) <= OP(t))),
                    ('a character kept is found', z3.Implies(z3.And(here, OP(k) + added(k) <= x, x < OP(k + 1), at), v == TOT(k + 1)))]

        def suppose(t, e):
            for n, f in claims(t, e):
                I.assume(f)
            for q in (NUM(t) + e - 1, r - 1):
                I.assume(z3.Implies(z3.And(0 <= q, q < NUM(t) + e), z3.Select(T0(t, e), q) < OP(t) + e))
        I.cover('lines')
        for n, f in claims(t, e):
            I.oblige(n + ': no lines', z3.substitute(f, (t, z3.IntVal(0)), (e, z3.IntVal(0))), assume=False)
        d = S.delta(t)
        many = z3.And(z3.Not(S.blank(t)), d < 0)
        which = I.choose(3)
        if which == 0:
            # one more character added
            I.assume(z3.And(many, 0 <= e, e < -d))
            S.unfold2(t, e)
            suppose(t, e)
            for n, f in claims(t, e + 1):
                I.oblige(n + ': one character more', f, assume=False)
        elif which == 1:
            # the line after the characters added
            I.assume(many)
            suppose(t, z3.simplify(-d))
            for n, f in claims(t + 1, z3.IntVal(0)):
                I.oblige(n + ': the rest of the line', f, assume=False)
        else:
            I.assume(z3.Not(many))
            suppose(t, z3.IntVal(0))
            for n, f in claims(t + 1, z3.IntVal(0)):
                I.oblige(n + ': one line more', f, assume=False)
        IP = z3.Function('position of line', IntS, IntS)
        I.assume(z3.And(IP(t) == OP(t) + TOT(t), IP(t + 1) == IP(t) + ln(t)))
        I.oblige('lengths re-indented and removed make the position in the expansion', IP(t + 1) == OP(t + 1) + TOT(t + 1))
        I.oblige('what the table says is the place of the character', z3.Implies(x >= OP(t) + added(t), x + TOT(t + 1) == IP(t) + z3.If(S.blank(t), 0, c) + (x - OP(t) - added(t))))
        I.cover('end of step %s' % which)
    return I.verify('table of lines re-indented', body)


def inside(I, ctx, key):
    """Is this loop part of the loop of that index?"""
    f = ctx['fr'].func
    at = I.fninfo(f)['loops'] if f is not None else {}
    return any(id(x) in at and '%idx' + str(at[id(x)]) == key and any(y is ctx['st'] for y in ast.walk(x)) for x in ast.walk(f.node)) if at else False


def counters(f):
    """The names that count: bounds of ranges, indices, and what is added to."""
    out = set()
    for x in ast.walk(f):
        parts = [x.slice] if isinstance(x, ast.Subscript) else list(x.args) if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'range' else \
            [x.target] if isinstance(x, ast.AugAssign) else []
        out.update(y.id for p in parts for y in ast.walk(p) if isinstance(y, ast.Name))
    return out


def merge_offset(I):
    """Two tables in one: what it says of a position is what the second says of it, and the first of
    the position the second leads to.  For any position x: entry a of the second table is the first
    after x, entry b of the first table the first after where the second leads."""
    def body(I):
        m, conf = C07.classes(I)
        first, second = table(I, 'first'), table(I, 'second')
        P, O = first.payload.copy(), second.payload.copy()
        (p0, p1), (o0, o1) = P.arrs, O.arrs
        delta = lambda e: z3.If(e > 0, z3.Select(o1, e - 1), 0)

        def use(p, e, fact):
            """The facts of a table about entry e and those used before."""
            e = z3.simplify(e) if isinstance(e, z3.ExprRef) else z3.IntVal(e)
            known = I.ghost.get(('entries', id(fact)), ())
            if any(e.eq(k) for k in known):
                return
            I.ghost[('entries', id(fact))] = known + (e,)
            here = lambda k: z3.And(0 <= k, k < p.n)
            I.assume(z3.Implies(here(e), z3.Select(p.arrs[0], e) >= 0))
            for k in known:
                for u, v in ((k, e), (e, k)):
                    I.assume(z3.Implies(z3.And(here(u), here(v), u < v), fact(u, v)))
                    I.assume(z3.Implies(z3.And(here(u), here(v), u == v), z3.Select(p.arrs[0], u) == z3.Select(p.arrs[0], v)))

        # entries in order; those of the second at different places, and at most one character is added at a place
        first_fact = lambda u, v: z3.Select(p0, u) <= z3.Select(p0, v)
        second_fact = lambda u, v: z3.And(z3.Select(o0, u) < z3.Select(o0, v), z3.Select(o0, u) + z3.Select(o1, u) <= z3.Select(o0, v) + z3.Select(o1, v),
                                          z3.Implies(v == u + 1, z3.Select(o1, v) >= z3.Select(o1, u) - 1))

        def use_first(q):
            use(P, q, first_fact)
            use(P, q - 1, first_fact)

        def use_second(e):
            use(O, e, second_fact)
            use(O, e - 1, second_fact)
            I.assume(z3.Implies(z3.And(e == 0, O.n > 0), z3.Select(o1, 0) >= -1))
        x, a, b = [I.fint(n).t for n in ('x', 'a', 'b')]
        at, vo = lookup(o0, o1, O.n, x, a)
        at2, vf = lookup(p0, p1, P.n, x + vo, b)
        I.assume(z3.And(x >= 0, at, at2))
        use_first(b)
        use_second(a)
        use_second(O.n)
        use_second(z3.IntVal(0))
        want = vo + vf
        pd = lambda q: z3.If(q > 0, z3.Select(p1, q - 1), 0)
        low = lambda u, v: z3.If(u <= v, u, v)
        A = z3.ArraySort(IntS, IntS)
        V = z3.Function('what a table says of x', A, A, IntS, IntS)

        says = lambda p: z3.If(p.n == 0, 0, V(p.arrs[0], p.arrs[1], p.n))

        def added(I, o, v):
            """The table says of x what its last entry not after x says."""
            p = o.payload
            if p.kind == 'conc':
                return
            if p.kind != 'tup' or not isinstance(v, tuple) or len(v) != 2:
                raise Unsupported('entry of the table')
            c, d = I.it(v[0]), I.it(v[1])
            r0, r1 = p.arrs
            I.oblige('the entries are in order', z3.Implies(p.n > 0, z3.Select(r0, p.n - 1) <= c))
            I.assume(V(z3.Store(r0, p.n, c), z3.Store(r1, p.n, d), p.n + 1) == z3.If(c <= x, d, says(p)))

        def hints(I, ctx, vals, ints, views):
            idx = {k: v for k, v in ints.items() if k.startswith('%idx')}
            whole = {k: I.it(v) for k, v in vals.items() if isinstance(v, (int, SInt)) and not isinstance(v, bool)}
            at = counters(ctx['fr'].func.node)
            places = {k: v for k, v in whole.items() if k in at}
            out = []
            k = ctx['idx']
            if k not in idx:
                return []
            over = [v for n, v in sorted(idx.items()) if n != k and inside(I, ctx, n)]
            holds = any(isinstance(y, (ast.For, ast.While)) and y is not ctx['st'] for y in ast.walk(ctx['st']))
            es = [('in', over[-1] - 1)] if over else [('entry', idx[k])] if holds else [('rest', O.n)]
            nxt = ctx['src'].get(idx[k]) if ctx['src'] is not None else None
            if isinstance(nxt, (int, SInt)):
                out += [('%s is the next one' % n, q == I.it(nxt)) for n, q in sorted(places.items())]
                places['the next one'] = I.it(nxt)
            for w, e in es:
                use_second(e)
                use_second(e + 1)
                for q in places.values():
                    use_first(q)
                end = z3.Select(o0, e - 1) + z3.Select(o1, e - 1)
                there = z3.And(0 <= e, e <= O.n)
                out += [('%s is the offset, %s' % (n, w), q == delta(e)) for n, q in sorted(whole.items()) if n not in at]
                for n, q in sorted(places.items()):
                    out.append(('%s is the place, %s' % (n, w), z3.And(there, 0 <= q, q <= P.n, z3.Implies(e == 0, q == 0), z3.Implies(z3.And(e > 0, q > 0), z3.Select(p0, q - 1) <= end), z3.Implies(z3.And(e > 0, q < P.n), z3.Select(p0, q) > end))))
                    out.append(('%s is not before the place, %s' % (n, w), z3.And(there, 0 <= q, q <= P.n, z3.Implies(z3.And(e > 0, q < P.n), z3.Select(p0, q) > end))))
                for n, o in sorted(vals.items()):
                    if not (isinstance(o, Obj) and isinstance(o.payload, ListP)) or o is first or o is second:
                        continue
                    o.ghost['append'] = added
                    p = as_table(I, o) if o.payload.kind == 'tup' or not o.payload.items else None
                    if p is None or p.kind != 'tup' or p.k != 2:
                        continue
                    last = z3.Select(p.arrs[0], p.n - 1)
                    out.append(('%s ends at the entry, %s' % (n, w), z3.Implies(p.n > 0, z3.And(e > 0, last <= z3.Select(o0, e - 1)))))
                    out.append(('%s ends before the entry, %s' % (n, w), z3.Implies(p.n > 0, z3.And(0 <= e, e < O.n, last <= z3.Select(o0, e)))))
                    for u, q in sorted(places.items()):
                        out.append(('%s ends before place %s, %s' % (n, u, w), z3.Implies(z3.And(p.n > 0, 0 <= q, q < P.n), last <= z3.Select(p0, q) - delta(e))))
                        out.append(('%s says at the entry, %s, %s' % (n, u, w), z3.And(z3.Implies(a >= e, says(p) == delta(e) + pd(q)), z3.Implies(a < e, says(p) == want))))
                        out.append(('%s says, %s, %s' % (n, u, w), z3.And(z3.Implies(a == e, says(p) == delta(e) + pd(low(q, b))), z3.Implies(a < e, says(p) == want))))
            return out

        def bis(I, args, kw):
            I.oblige('looked up in the first table', args[0] is first)
            n = I.fint('place')
            I.assume(lookup(p0, p1, P.n, I.it(args[1]), n.t)[0])
            use_first(n.t)
            return n
        I.overrides['_bisect'] = Builtin('_bisect', bis)
        I.hints = hints
        I.hints_only = True
        res = I.run_func(I.module_get(m, '_merge_offset'), [first, second], {})
        I.cover('merged')
        p = as_table(I, res)
        I.oblige('what the table says is what the two say one after the other', says(p) == want)
    return I.verify('_merge_offset', body)


def result_loc(expansion, called):
    """Where a place in a source leads: to the file itself, or to those of the call and of the
    declaration, the latter with a negative position.  (By the contract of RESULT.loc itself.)"""
    def unit(I):
        real = []

        def body(I):
            m = I.prog.module('pp.yugen')
            I.class_attrs = True
            cls = I.module_get(m, 'RESULT')
            if not real:
                real.append(cls.attrs['loc'])
            cls.attrs['loc'] = real[0]
            fn = I.getattr(cls, 'loc')
            pos = I.fint('pos')
            number = I.fint('number').t
            inc = I.module_get(m, 'SOURCE_INCLUSION')
            digits = SStr([OStr(I.fu('digits'), I.fint('digits.len').t)])
            I.assume(z3.And(pos.t >= 0, number >= 0, digits.ps[0].n >= 1))
            name = SStr([inc] + list(digits.ps)) if expansion else SStr([L.piece(I, 'name', r'[^\0]+')])

            def to_int(I, s, a):
                if isinstance(s, SStr) and len(s.ps) == 1 and isinstance(s.ps[0], OStr) and s.ps[0].u is digits.ps[0].u and not a:
                    return SInt(number)
                raise Unsupported('a number of another text')
            I.int_hook = to_int

            def place_of(what):
                f, t = [SStr([OStr(I.fu(what + x), I.fint(what + x + '.len').t)]) for x in (' file', ' text')]
                q = I.fint(what + ' pos')
                I.assume(z3.And(f.ps[0].n >= 1, q.t >= 0, t.ps[0].n >= 1))
                o = I.new('ATOM', t)
                o.fields.update(input_file=f, pos=q)
                return o, f, q, t
            decl, df, dq, dt = place_of('decl')
            call, cf, cq, ct = place_of('call')
            shown = name
            if not expansion:
                w = I.choose(3)
                decl = [None, '', dt][w]
                shown = dt if w == 2 else name
            src = Obj(I.builtin_classes['dict'], DictP({}))

            def source(I, o, k):
                I.oblige('the source looked up is that of the place', L.same(I.strval(k), name) is True)
                return (decl, I.ostr('source'))
            src.ghost.update(getitem=source, methods={'get': lambda I, o, a, kw: source(I, o, a[0])})
            incs = Obj(I.builtin_classes['list'], ListP('conc', items=[]))

            def inclusion(I, o, k):
                I.oblige('the call looked up is that of the expansion', I.it(k) == number)
                return call if called else None
            incs.ghost.update(getitem=inclusion)
            ys = I.module_get(m, 'yushell')
            ys.attrs = dict(ys.attrs, source=src, inclusion=incs)
            # the files found so far have different numbers below their number
            n, known, at = I.fint('files').t, I.fbool('known').t, I.fint('its number')
            I.assume(z3.And(n >= 0, z3.Implies(known, z3.And(0 <= at.t, at.t < n))))
            files = Obj(I.builtin_classes['dict'], DictP({}))
            new = []

            def that(k):
                k = I.strval(k)
                I.oblige('the file is that of the place', k is shown or L.same(k, shown) is True or (isinstance(k, SStr) and isinstance(shown, SStr) and len(k.ps) == len(shown.ps) == 1 and k.ps[0] is shown.ps[0]))

            def contains(I, o, k):
                that(k)
                return True if new else SBool(known)

            def getitem(I, o, k):
                that(k)
                if new:
                    return new[-1]
                if not I.branch(known):
                    I.throw('KeyError', k)
                return at

            def setitem(I, o, k, v):
                that(k)
                I.oblige('a file keeps its number', z3.And(z3.Not(known), z3.BoolVal(not new)))
                I.oblige('a new file has the next number', I.it(v) == n)
                new.append(v)
            files.ghost.update(contains=contains, getitem=getitem, setitem=setitem, len=lambda I, o: SInt(n + len(new)))
            cls.attrs['files'] = files
            chains = []

            def nested(I, a, kw):
                a = list(a) + [kw[k] for k in ('input_file', 'pos')[len(a):] if k in kw]
                o = table(I, 'chain', 3)
                chains.append((I.strval(a[0]), I.it(a[1]), o.payload.copy()))
                return o
            cls.attrs['loc'] = Builtin('RESULT.loc', nested)
            try:
                r = I.call(fn, [name, pos], {})
            except PyRaise as ex:
                I.oblige('no exception (%s)' % ex.cls.name, False)
            I.cover('a place')
            if not (isinstance(r, Obj) and isinstance(r.payload, ListP)):
                I.oblige('a list of places', False)
            p = as_table(I, r, 3)
            get = lambda k: tuple(z3.Select(x, k) for x in p.arrs)
            if not expansion:
                I.oblige('nothing else is looked up', not chains)
                I.oblige('one place', p.n == 1)
                a, b, c = get(0)
                I.oblige('the place is in the file, from here on', z3.And(a == 0, c == pos.t))
                I.oblige('the number of the file', b == z3.If(known, at.t, n))
                I.oblige('a new file is kept', z3.Or(known, z3.BoolVal(bool(new))))
                return
            want = ([(cf, cq)] if called else []) + [(df, SInt(-dq.t))]
            I.oblige('the files are those of the places', not new)
            I.oblige('the places of the call and of the declaration', len(chains) == len(want))
            base = z3.IntVal(0)
            j = z3.Int('j!q')
            for (f, q, c), (wf, wq), what in zip(chains, want, (['call'] if called else []) + ['declaration']):
                I.oblige('the file of the %s' % what, L.same(f, wf) is True or (isinstance(f, SStr) and len(f.ps) == 1 and f.ps[0] is wf.ps[0]))
                I.oblige('the position of the %s' % what, q == wq.t)
                I.oblige('all places of the %s, in order' % what,
                         z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < c.n), z3.And(*[z3.Select(x, base + j) == z3.Select(y, j) for x, y in zip(p.arrs, c.arrs)]))))
                base = base + c.n
            I.oblige('no other place', p.n == base)
        return I.verify('RESULT.loc', body)
    return unit


def saved(I):
    """The table is saved beside the output, as it is, the files in order of their numbers."""
    def body(I):
        Sh.surroundings(I)
        I.class_attrs = True
        m = I.prog.module('pp.yup')
        fs = Sh.FS(I)
        fs.faults = False
        fs.install()
        name = SStr([L.piece(I, 'out', '[^./\\n]+'), '.c'])
        cls = I.module_get(I.prog.module('pp.yugen'), 'RESULT')
        files = Obj(I.builtin_classes['dict'], DictP({'b': 0, 'c': 1, 'a': 2}))
        cls.attrs['files'] = files
        ordered = []

        def by_number(I, a, kw):
            src = a[0]
            I.oblige('the files of the table', src is files or [I.strval(x) for x in I.iterate(src)] == ['b', 'c', 'a'])
            k = kw.get('key')
            I.oblige('in order of their numbers', k is not None and not kw.get('reverse') and all(I.call(k, [f], {}) == v for f, v in files.payload.items.items()))
            o = I.new_list(['b', 'c', 'a'])
            ordered.append(o)
            return o
        I.overrides['sorted'] = Builtin('sorted', by_number)
        res = I.new('RESULT', SStr([L.piece(I, 'text', '[\\s\\S]*')]))
        browse, offset = table(I, 'browse', 3), table(I, 'offset')
        res.fields.update(browse=browse, offset=offset)
        Sh.attrs(I, 'shell', read_only=I.fbool('read_only'))
        fb = Sh.attrs(I, 'feedback', output_file=None, repeat=False)
        first = name
        if I.choose(2):
            first = SStr([L.piece(I, 'first', '[^./\\n]+'), '.d'])
            fb.attrs['output_file'] = name
        I.overrides['_pp'] = Builtin('_pp', lambda I, a, kw: (True, res))
        I.overrides['yushell'] = Sh.nop('yushell')
        I.overrides['yuinit'] = Sh.nop('yuinit')
        made = SStr([L.piece(I, 'json', '[\\s\\S]+')])
        hook = I.lib_hook

        def dumps(I, a, kw):
            d = a[0]
            I.oblige('the table in its file', isinstance(d, Obj) and isinstance(d.payload, DictP) and d.payload.base is None and set(d.payload.items) == {'files', 'browse', 'offset'})
            d = d.payload.items
            I.oblige('the files in order of their numbers', isinstance(d['files'], Obj) and I.iterate(d['files']) == ['b', 'c', 'a'])
            I.oblige('the references are those of the result', d['browse'] is browse)
            I.oblige('the offsets are those of the result', d['offset'] is offset)
            return made
        I.lib_hook = lambda I, k: Builtin(k, dumps) if k == 'json.dumps' else hook(I, k)
        f = Obj(I.builtin_classes['object'])
        f.ghost['methods'] = {'read': lambda I, o, a, kw: I.ostr('source'), 'close': lambda I, o, a, kw: None}
        try:
            I.run_func(I.module_get(m, '_pp_stream'), [f, SStr([L.piece(I, 'fn', '[^./\\n]+'), '.yu-c']), first], {})
        except PyRaise as ex:
            I.oblige('no exception (%s)' % ex.cls.name, False)
        I.cover('saved')
        for path, want, what in ((I.concat(name, '.json'), made, 'the table is saved'), (name, I.strval(res), 'the text is saved')):
            c = fs.find(path).now
            I.oblige(what, isinstance(c, tuple) and c[0] == 'text' and len(c) == 2 and L.same(I.strval(c[1]), want) is True)
    return I.verify('_pp_stream', body)


UNITS = [('_bisect', bisect('pp.yugen')), ('_bisect of the plugin', bisect(PLUGIN)), ('RESULT.add_text', add_text),
         ('reduce_emptiness', lambda I: C07.with_browse(I, True)), ('table of lines dropped', lines_dropped),
         ('TRIM.trim_with_browse, an indentation', lambda I: C09.with_browse(I, True, 1)),
         ('TRIM.trim_with_browse, none', lambda I: C09.with_browse(I, True, 0)), ('table of lines re-indented', lines_indented), ('_merge_offset', merge_offset),
         ('RESULT.loc, a file', result_loc(False, False)), ('RESULT.loc, a call', result_loc(True, True)), ('RESULT.loc, no call', result_loc(True, False)), ('_pp_stream', saved)]
HEAVY = ['_merge_offset']
TRUSTED = ['ps_space by its contract (C03)', '_split_lines by its contract (C09)', 'textwrap.dedent and os.path.commonprefix of Python']
ASSUMPTIONS = ['_merge_offset is given tables in order, the second with different places, positions reached in order, and at most one character added at a place (as reduce_emptiness and TRIM make them: run-time checked)',
               'GotoOriginCommand.run is checked at run time only (bounded): random programs, every character looked up by the plugin itself']
