"""C07: the reduction of blank lines, for any number of lines with any text.  The lines kept are
those that are not blank after a blank one; the result is their text in order."""
import z3
from pyvc.values import *
from pyvc import lang as L

IntS, BoolS = z3.IntSort(), z3.BoolSort()
LINE = z3.Function('line', IntS, U)
LINES = z3.Function('kept lines', IntS, z3.SeqSort(U))
TEXTS = z3.Function('text of kept lines', IntS, U)
OPOS, DEL, NUM = (z3.Function(n, IntS, IntS) for n in ('length of kept lines', 'length of dropped lines', 'runs of dropped lines'))
TPOS, TDEL = (z3.Function(n, IntS, ArrI) for n in ('positions of runs', 'lengths dropped'))
SPACED = z3.Function('spaces and tabs only', U, BoolS)
STRIP, RSTRIP = (z3.Function('str.' + n, U, U) for n in ('strip', 'rstrip'))


def opaque(I, u, low=0):
    n = I.strlenU(u)
    I.assume(n >= low)
    return SStr([OStr(u, n)])


class Lines:
    """n lines of unknown text; which of them are kept."""

    table = False

    def __init__(self, I, blank, item):
        self.I, self.blank, self.item = I, blank, item
        self.n = I.fint('lines').t

    def keep(self, k):
        return z3.Not(z3.And(k > 0, self.blank(k), self.blank(k - 1)))

    def unfold(self, k):
        I = self.I
        k = z3.simplify(k)
        x = self.item(k)
        done = I.ghost.setdefault('unfolded', {})
        if k.get_id() in done:
            return x
        done[k.get_id()] = k
        I.assume(LINES(0) == z3.Empty(z3.SeqSort(U)))
        I.assume(TEXTS(0) == I.box(''))
        I.assume(z3.Implies(k >= 0, LINES(k + 1) == z3.If(self.keep(k), z3.Concat(LINES(k), z3.Unit(x)), LINES(k))))
        I.assume(z3.Implies(k >= 0, TEXTS(k + 1) == z3.If(self.keep(k), I.catU(TEXTS(k), x), TEXTS(k))))
        I.assume(I.catU(I.box(''), x) == x)
        if self.table:
            n = I.strlenU(x)
            drop = z3.Not(self.keep(k))
            run = z3.And(drop, self.keep(k - 1))
            zero = z3.K(IntS, z3.IntVal(0))
            I.assume(z3.And(OPOS(0) == 0, DEL(0) == 0, NUM(0) == 0, TPOS(0) == zero, TDEL(0) == zero))
            I.assume(z3.Implies(k >= 0, z3.And(
                OPOS(k + 1) == OPOS(k) + z3.If(drop, 0, n), DEL(k + 1) == DEL(k) + z3.If(drop, n, 0),
                NUM(k + 1) == NUM(k) + z3.If(run, 1, 0),
                TPOS(k + 1) == z3.If(drop, z3.Store(TPOS(k), NUM(k + 1) - 1, OPOS(k)), TPOS(k)),
                TDEL(k + 1) == z3.If(drop, z3.Store(TDEL(k), NUM(k + 1) - 1, DEL(k + 1)), TDEL(k)))))
        return x

    def is_table(self, o):
        I = self.I
        p = o.payload
        if p.kind == 'conc' and not p.items:
            p = I.to_kind(p, ('tup', 2))
        j = z3.Int('j!q')
        n = self.n
        I.oblige('an entry for every run of lines dropped: its position, the length dropped so far', z3.And(p.n == NUM(n), z3.ForAll([j], z3.Implies(
            z3.And(0 <= j, j < p.n), z3.And(z3.Select(p.arrs[0], j) == z3.Select(TPOS(n), j), z3.Select(p.arrs[1], j) == z3.Select(TDEL(n), j))))))

    def last(self, t):
        return z3.If(NUM(t) > 0, z3.Select(TPOS(t), NUM(t) - 1), 0)

    def facts(self, t):
        drop = z3.Not(self.keep(t - 1))
        return z3.And(NUM(t) >= 0, OPOS(t) >= 0, z3.Implies(z3.And(t > 0, drop), z3.And(NUM(t) > 0, self.last(t) == OPOS(t))),
                      z3.Implies(z3.And(t > 0, z3.Not(drop)), OPOS(t) > self.last(t)), z3.Implies(t == 0, NUM(t) == 0))

    def list(self, n):
        return Obj(self.I.builtin_classes['list'], ListP('fn', n=n, get=self.get))

    def get(self, k):
        k = z3.simplify(k) if isinstance(k, z3.ExprRef) else z3.IntVal(k)
        return opaque(self.I, LINE(k))

    def hints(self, I, ctx, vals, ints, views):
        out = []
        j = z3.Int('j!q')
        # the loop at hand, the lines all gone through
        loops = [(k, t) for k, t in sorted(ints.items()) if k == ctx['idx']]
        for k, t in loops + [('all', self.n)]:
            self.unfold(t)
            self.unfold(t - 1)
            was = z3.And(t > 0, self.blank(t - 1))
            if self.table:
                out.append(('the table of %s' % k, self.facts(t)))
            for a, v in sorted(vals.items()):
                if self.table and isinstance(v, (int, SInt)) and not isinstance(v, bool) and not a.startswith('%'):
                    out += [('%s is the length kept of %s' % (a, k), I.it(v) == OPOS(t)), ('%s is the length dropped of %s' % (a, k), I.it(v) == DEL(t)),
                            ('%s is the position of the last run of %s' % (a, k), I.it(v) == self.last(t))]
                if self.table and isinstance(v, Obj) and isinstance(v.payload, ListP) and v.payload.kind in ('conc', 'tup'):
                    p = v.payload
                    if p.kind == 'conc' and not p.items:
                        p = I.to_kind(p, ('tup', 2))
                    if p.kind == 'tup' and p.k == 2:
                        out.append(('%s is the table of %s' % (a, k), z3.And(p.n == NUM(t), p.arrs[0] == TPOS(t), p.arrs[1] == TDEL(t))))
                if isinstance(v, (bool, SBool)):
                    out += [('%s: the line before %s is blank' % (a, k), I.bt(v) == was), ('%s: the line before %s is not blank' % (a, k), I.bt(v) == z3.Not(was)),
                            ('%s: no line before %s or a blank one' % (a, k), I.bt(v) == z3.Or(t == 0, was))]
                elif isinstance(v, (str, SStr)):
                    out.append(('%s is the text of the lines kept of %s' % (a, k), I.box(v) == TEXTS(t)))
                    out.append(('%s is the line before %s' % (a, k), z3.Implies(t > 0, I.box(v) == LINE(t - 1))))
                elif isinstance(v, Obj) and isinstance(v.payload, ListP) and v.payload.kind in ('conc', 'seq'):
                    try:
                        s = I.seq_of(v)
                    except Unsupported:
                        continue
                    out.append(('%s has the lines kept of %s' % (a, k), s == LINES(t)))
                elif isinstance(v, Obj) and v.cls.name == 'set':
                    if isinstance(v.payload, z3.ExprRef) and v.payload.sort().domain() == IntS:
                        out.append(('%s has the blank lines of %s' % (a, k), z3.ForAll([j], z3.Select(v.payload, j) == z3.And(0 <= j, j < t, self.blank(j)))))
                    elif v.payload == frozenset():
                        out.append(('%s has the blank lines of %s' % (a, k), t == 0))
        return out


def classes(I):
    I.overrides['ast.NodeVisitor'] = Class('NodeVisitor', [I.builtin_classes['object']], {}, builtin=True)
    m = I.prog.module('pp.yugen')
    return m, I.module_get(m, 'config')


def off(I):
    def body(I):
        m, conf = classes(I)
        conf.attrs = dict(conf.attrs, pp_reduce_emptiness=False, pp_browse=I.fbool('browse'))
        t = I.ostr('text')
        if I.choose(2):
            t = I.new('RESULT', t, browse=I.new_list([]), offset=I.new_list([]))
        r = I.run_func(I.module_get(m, 'reduce_emptiness'), [t], {})
        I.cover('off')
        I.oblige('with the option off the text is unchanged', r is t)
    return I.verify('reduce_emptiness', body)


def reduction(I):
    def body(I):
        m, conf = classes(I)
        conf.attrs = dict(conf.attrs, pp_reduce_emptiness=True)
        text = I.ostr('text')
        S = Lines(I, lambda k: I.strlenU(STRIP(LINE(k))) <= 0, lambda k: RSTRIP(LINE(k)))
        I.assume(S.n >= 1)
        k = z3.Int('k!q')
        I.assume(z3.ForAll([k], z3.And(I.strlenU(LINE(k)) >= 0, I.strlenU(STRIP(LINE(k))) >= 0)))
        # the end of the text after the last line end is no line
        m_ = z3.If(I.strlenU(LINE(S.n - 1)) > 0, S.n, S.n - 1)

        def split(I, s, a):
            if I.box(s) is I.box(text) or z3.eq(I.box(s), I.box(text)):
                I.oblige('the lines end where lines end', len(a) == 1 and I.strval(a[0]) == '\n')
                return S.list(S.n)
            return NotImplemented
        I.split_hook = split
        joined = z3.Function('joined', IntS, U)

        def join(I, s, v):
            I.oblige('the lines are joined by line ends', s == '\n')
            S.unfold(S.n - 1)
            I.oblige('the lines kept, their text without spacing at the end, in order', I.seq_of(v) == LINES(m_))
            return opaque(I, joined(m_))
        I.join_hook = join
        I.hints = S.hints
        r = I.run_func(I.module_get(m, 'reduce_emptiness'), [text], {})
        I.cover('reduced')
        s = I.strval(r)
        if s is None:
            I.oblige('the result is a text', False)
        I.oblige('the result is the lines joined, and a line end', I.box(s) == I.catU(joined(m_), I.box('\n')))
    return I.verify('reduce_emptiness', body)


def with_browse(I, origin=False):
    def body(I):
        m, conf = classes(I)
        conf.attrs = dict(conf.attrs, pp_reduce_emptiness=True)
        refs = I.new_list([I.sym(None, 'reference')])
        old = I.new_list([(I.fint('p'), I.fint('d'))]) if I.choose(2) else I.new_list([])
        text = I.new('RESULT', I.ostr('text'), browse=refs, offset=old)
        S = Lines(I, lambda k: SPACED(LINE(k)), lambda k: LINE(k))
        I.assume(S.n >= 0)
        k = z3.Int('k!q')
        I.assume(z3.ForAll([k], I.strlenU(LINE(k)) >= 1))

        def lines(I, a, kw):
            I.oblige('the lines are those of the text', a[0] is text)
            return S.list(S.n)
        I.overrides['_split_lines'] = Builtin('_split_lines', lines)

        def space(I, a, kw):
            s = I.strval(a[0])
            if s is None or len(s.ps) != 1 or not isinstance(s.ps[0], OStr):
                raise Unsupported('ps_space')
            u = s.ps[0].u
            if I.branch(SPACED(u)):
                return (['', '\n'][I.choose(2)], I.ostr('space') if I.choose(2) else None)
            r = I.ostr('rest')
            I.assume(r.ps[0].n >= 1)
            I.assume(z3.And(I.box(r) != I.box('\n'), I.box(r) != I.box('')))
            return (r, I.ostr('space') if I.choose(2) else None)
        I.overrides['ps_space'] = Builtin('ps_space', space)
        had = bool(old.payload.items)
        merged = I.new_list([(I.fint('p'), I.fint('d'))])

        def merge(I, a, kw):
            if origin:
                I.oblige('the offsets of the text are merged with those of the lines dropped', a[0] is old)
                S.is_table(a[1])
            return merged
        I.overrides['_merge_offset'] = Builtin('_merge_offset', merge)
        I.hints = S.hints
        I.hints_only = True
        I.empty_set_sort = IntS
        S.table = True
        r = I.run_func(I.module_get(m, 'reduce_emptiness'), [text], {})
        I.cover('reduced')
        I.oblige('the result has references', isinstance(r, Obj) and r.cls.name == 'RESULT')
        S.unfold(S.n - 1)
        I.oblige('the lines kept, as they are, in order', I.box(I.strval(r)) == TEXTS(S.n))
        I.oblige('the references are those of the text', r.fields['browse'] is refs)
        if origin:
            if had:
                I.oblige('the offsets are the merged ones', r.fields['offset'] is merged)
            else:
                S.is_table(r.fields['offset'])
    return I.verify('reduce_emptiness', body)


def consequence(I):
    """What the lines kept are, from their definition."""
    def body(I):
        B = z3.Function('blank', IntS, BoolS)
        keep = lambda k: z3.Not(z3.And(k > 0, B(k), B(k - 1)))
        i, j, k = z3.Ints('i j k')
        I.cover('lines')
        I.assume(z3.And(0 <= i, i < j))
        I.oblige('a line that is not blank is kept', z3.Implies(z3.Not(B(i)), keep(i)))
        none = z3.ForAll([k], z3.Implies(z3.And(i < k, k < j), z3.Not(keep(k))))
        # successive lines of the result: i and j kept, none between them
        I.oblige('a line dropped is blank', z3.Implies(z3.Not(keep(j)), B(j)))
        I.oblige('no two successive lines of the result are blank', z3.Implies(z3.And(keep(i), keep(j), none, z3.Or(j == i + 1, z3.Not(keep(j - 1)))), z3.Not(z3.And(B(i), B(j)))))
        # the first of successive blank lines is kept
        I.oblige('a blank line is kept where blank lines stood', z3.Implies(z3.And(z3.Not(B(i)), B(i + 1)), keep(i + 1)))
        I.oblige('the first line is kept', keep(z3.IntVal(0)))
    return I.verify('consequence', body)


UNITS = [('option off', off), ('reduce_emptiness', reduction), ('reduce_emptiness with browse', with_browse), ('lines kept', consequence)]
TRUSTED = ['strip and rstrip of Python: a line is blank when nothing is left of it', '_split_lines and ps_space by contract (C03, C09)']
ASSUMPTIONS = []
