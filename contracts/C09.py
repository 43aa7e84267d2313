"""C09: re-indentation.  Lines of any number and text; what a line becomes depends on it, its place
and the indentation shared; the table of offsets says how."""
import ast
import z3
from pyvc.values import *
from pyvc.models import SLICE

IntS, BoolS = z3.IntSort(), z3.BoolSort()
SeqU = z3.SeqSort(U)
PART = z3.Function('part', IntS, U)
LINE = z3.Function('line', IntS, U)
REST, SPACING = z3.Function('rest of', U, U), z3.Function('spacing of', U, U)
SHARED = z3.Function('spacing of the lines', IntS, SeqU)
TEXTS = z3.Function('text of lines', IntS, U)
OP, TOT, NUM = (z3.Function(n, IntS, IntS) for n in ('length of lines re-indented', 'length removed', 'entries'))
T0, T1 = (z3.Function(n, IntS, IntS, ArrI) for n in ('positions', 'offsets'))


def opaque(I, u, low=0):
    n = I.strlenU(u)
    I.assume(n >= low)
    return SStr([OStr(u, n)])


def classes(I):
    I.overrides['ast.NodeVisitor'] = Class('NodeVisitor', [I.builtin_classes['object']], {}, builtin=True)
    m = I.prog.module('pp.yugen')
    return m, I.module_get(m, 'config')


def fn_list(I, n, get):
    return Obj(I.builtin_classes['list'], ListP('fn', n=n, get=get))


def split_lines(I):
    def body(I):
        m, conf = classes(I)
        t = I.ostr('text')
        n = I.fint('parts').t
        I.assume(n >= 1)

        def split(I, s, a):
            I.oblige('the text is split at line ends', len(a) == 1 and I.strval(a[0]) == '\n' and s.ps[0].u is t.ps[0].u)
            return fn_list(I, n, lambda k: opaque(I, PART(k)))
        I.split_hook = split
        I.map_comp = True
        arg = t
        if I.choose(2):
            arg = I.new('RESULT', t, browse=I.new_list([]), offset=I.new_list([]))
        r = I.run_func(I.module_get(m, '_split_lines'), [arg], {})
        I.cover('split')
        last = I.strlenU(PART(n - 1)) > 0
        size = z3.If(last, n, n - 1)
        if not (isinstance(r, Obj) and isinstance(r.payload, ListP)):
            I.oblige('the result is a list', False)
        I.oblige('a line for every part, the last one when it is not empty', I.it(I.list_len(r)) == size)
        k = I.fint('k').t
        I.assume(z3.And(0 <= k, k < size))
        x = I.list_get(r, SInt(k))
        s = I.strval(x)
        if s is None:
            I.oblige('the lines are texts', False)
        u = PART(k)
        I.oblige('a line is a part and the line end, the last part has none', I.box(s) == z3.If(k == n - 1, u, I.catU(u, I.box('\n'))))
    return I.verify('_split_lines', body)


def trim(I):
    def body(I):
        m, conf = classes(I)
        on = I.choose(2) == 1
        conf.attrs = dict(conf.attrs, pp_trim_app_indent=on)
        t = I.ostr('text')
        ind = I.ostr('indent') if I.choose(2) else ''
        node = I.new('TRIM', None, ast=None, indent=ind)
        calls = []
        d = I.ostr('dedented')
        lines = fn_list(I, I.fint('lines').t, lambda k: opaque(I, LINE(k)))

        def dedent(I, a, kw):
            I.oblige('the indentation common to the expansion is removed', I.strval(a[0]) is t)
            calls.append('dedent')
            return d
        I.overrides['textwrap.dedent'] = I.overrides['dedent'] = Builtin('dedent', dedent)

        def split(I, a, kw):
            I.oblige('the lines are those of the text without it', I.strval(a[0]) is d)
            return lines
        I.overrides['_split_lines'] = Builtin('_split_lines', split)
        j = I.ostr('joined')

        def join(I, s, v):
            I.oblige('the indentation goes between the lines', s is ind and v is lines)
            return j
        I.join_hook = join
        r = I.call(I.getattr(node, 'trim'), [t], {})
        I.cover('on' if on else 'off')
        if not on:
            I.oblige('with the option off the expansion is as it was', r is t)
        elif not calls:
            I.oblige('nothing is done only to an empty text', z3.And(I.box(r) == I.box(t), t.ps[0].n == 0))
        else:
            I.oblige('the lines, the indentation between them', r is j)
    return I.verify('TRIM.trim', body)


class Lines:
    def __init__(self, I, ind):
        self.I, self.ind = I, ind
        self.n = I.fint('lines').t
        self.c = I.fint('shared').t
        I.assume(z3.And(self.n >= 1, self.c >= 0))
        self.il = I.it(I.slen(ind))
        self.m = self.n

    def blank(self, k):
        return REST(LINE(k)) == self.I.box('\n')

    def delta(self, k):
        return z3.If(k > 0, self.c - self.il, self.c)

    def get(self, k):
        k = z3.simplify(k) if isinstance(k, z3.ExprRef) else z3.IntVal(k)
        I = self.I
        # what is shared is part of the spacing of every line that is not blank
        I.assume(z3.Implies(z3.And(0 <= k, k < self.m, z3.Not(self.blank(k))), self.c <= I.strlenU(LINE(k))))
        return opaque(I, LINE(k), 1)

    def unfold(self, k):
        I = self.I
        k = z3.simplify(k)
        done = I.ghost.setdefault('unfolded', {})
        if k.get_id() in done:
            return
        done[k.get_id()] = k
        x, b = LINE(k), self.blank(k)
        self.get(k)
        n = I.strlenU(x)
        cut = SLICE(x, self.c, n)
        I.assume(z3.Implies(self.c == 0, cut == x))
        I.assume(I.catU(I.box(''), x) == x)
        I.assume(I.catU(I.box(''), cut) == cut)
        sp = SPACING(x)
        I.assume(SHARED(0) == z3.Empty(SeqU))
        I.assume(TEXTS(0) == I.box(''))
        zero = z3.K(IntS, z3.IntVal(0))
        I.assume(z3.And(OP(0) == 0, TOT(0) == 0, NUM(0) == 0, T0(0, 0) == zero, T1(0, 0) == zero))
        t = TEXTS(k)
        ind = t if isinstance(self.ind, str) and not self.ind else I.catU(t, I.box(self.ind))
        d = self.delta(k)
        one = z3.And(z3.Not(b), d > 0)
        many = z3.And(z3.Not(b), d < 0)
        I.assume(z3.Implies(k >= 0, z3.And(
            SHARED(k + 1) == z3.If(b, SHARED(k), z3.Concat(SHARED(k), z3.Unit(sp))),
            TEXTS(k + 1) == z3.If(b, I.catU(t, x), z3.If(k > 0, I.catU(ind, cut), I.catU(t, cut))),
            OP(k + 1) == OP(k) + n - z3.If(b, 0, d), TOT(k + 1) == TOT(k) + z3.If(b, 0, d),
            NUM(k + 1) == NUM(k) + z3.If(one, 1, z3.If(many, -d, 0)),
            T0(k + 1, 0) == z3.If(one, z3.Store(T0(k, 0), NUM(k), OP(k)), z3.If(many, T0(k, -d), T0(k, 0))),
            T1(k + 1, 0) == z3.If(one, z3.Store(T1(k, 0), NUM(k), TOT(k) + d), z3.If(many, T1(k, -d), T1(k, 0))))))

    def unfold2(self, k, e):
        self.I.assume(z3.Implies(z3.And(k >= 0, e >= 0), z3.And(T0(k, e + 1) == z3.Store(T0(k, e), NUM(k) + e, OP(k) + e),
                                                           T1(k, e + 1) == z3.Store(T1(k, e), NUM(k) + e, TOT(k) - e - 1))))

    def hints(self, I, ctx, vals, ints, views):
        out = []
        j = z3.Int('j!q')
        idx = [t for k, t in sorted(ints.items()) if k == ctx['idx']]
        if not idx:
            return out
        t = idx[0]
        # a loop inside the loop over the lines
        outer = [x for k, x in sorted(ints.items()) if k.startswith('%idx') and k != ctx['idx'] and self.inner(ctx, k)]
        if outer:
            k, e = outer[-1] - 1, t
            self.unfold(k)
            self.unfold2(k, e)
            self.unfold2(k, e - 1)
        else:
            k, e = t, z3.IntVal(0)
            self.unfold(t)
            self.unfold(t - 1)
        for a, v in sorted(vals.items()):
            if a.startswith('%'):
                continue
            if isinstance(v, (int, SInt)) and not isinstance(v, bool):
                out += [('%s is the length re-indented' % a, I.it(v) == OP(k) + e), ('%s is the length removed' % a, I.it(v) == TOT(k) - e)]
            elif isinstance(v, Obj) and isinstance(v.payload, ListP) and v.payload.kind in ('conc', 'tup', 'seq'):
                p = v.payload
                if p.kind == 'conc' and not p.items:
                    p = I.to_kind(p, ('tup', 2))
                if p.kind == 'tup' and p.k == 2:
                    out.append(('%s is the table' % a, z3.And(p.n == NUM(k) + e, p.arrs[0] == T0(k, e), p.arrs[1] == T1(k, e))))
                if not outer and v.payload.kind in ('conc', 'seq'):
                    try:
                        out.append(('%s has the spacing' % a, I.seq_of(v) == SHARED(t)))
                    except Unsupported:
                        pass
            elif outer:
                continue
            elif isinstance(v, (str, SStr)):
                out.append(('%s is the text' % a, I.box(v) == TEXTS(t)))
            elif isinstance(v, Obj) and v.cls.name == 'set':
                if isinstance(v.payload, z3.ExprRef) and v.payload.sort().domain() == IntS:
                    for w, q in (('', t), ('all ', self.m)):
                        out.append(('%s has the blank lines %s' % (a, w), z3.ForAll([j], z3.Select(v.payload, j) == z3.And(0 <= j, j < q, self.blank(j)))))
                elif v.payload == frozenset():
                    out.append(('%s has the blank lines ' % a, t == 0))
        return out

    def inner(self, ctx, key):
        """Is this loop part of the loop of that index?"""
        f = ctx['fr'].func
        if f is None:
            return False
        at = self.I.fninfo(f)['loops']
        return any(id(x) in at and '%idx' + str(at[id(x)]) == key and any(y is ctx['st'] for y in ast.walk(x)) for x in ast.walk(f.node))


def with_browse(I, origin, indented):
    def body(I):
        m, conf = classes(I)
        on = I.choose(2) == 1
        conf.attrs = dict(conf.attrs, pp_trim_app_indent=on)
        ind = I.ostr('indent') if indented else ''
        refs = I.new_list([I.sym(None, 'reference')])
        had = origin and I.choose(2) == 1
        old = I.new_list([(I.fint('p'), I.fint('d'))]) if had else I.new_list([])
        t = I.ostr('text')
        plain = I.new('RESULT', t, browse=refs, offset=old)
        node = I.new('TRIM', None, ast=None, indent=ind)
        if not on:
            r = I.call(I.getattr(node, 'trim_with_browse'), [plain], {})
            I.cover('off')
            I.oblige('with the option off the expansion is as it was', r is plain)
            return
        S = Lines(I, ind)
        k = z3.Int('k!q')
        I.assume(z3.ForAll([k], I.strlenU(LINE(k)) >= 1))
        seen = []

        def lines(I, a, kw):
            I.oblige('the lines are those of the expansion', a[0] is plain)
            seen.append(1)
            return fn_list(I, S.n, S.get)
        I.overrides['_split_lines'] = Builtin('_split_lines', lines)
        # only the last line has no line end: the others are not spacing alone
        I.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < S.n - 1), REST(LINE(k)) != I.box(''))))
        tail = I.branch(REST(LINE(S.n - 1)) == I.box(''))
        S.m = z3.simplify(S.n - 1) if tail else S.n

        def space(I, a, kw):
            s = I.strval(a[0])
            if s is None or len(s.ps) != 1 or not isinstance(s.ps[0], OStr):
                raise Unsupported('ps_space')
            u = s.ps[0].u
            sp = opaque(I, SPACING(u))
            rest = opaque(I, REST(u))
            I.assume((I.strlenU(REST(u)) == 0) == (REST(u) == I.box('')))
            I.assume(z3.Implies(REST(u) == I.box('\n'), I.strlenU(REST(u)) == 1))
            I.assume((I.strlenU(SPACING(u)) == 0) == (SPACING(u) == I.box('')))
            return (rest, sp if I.branch(I.strlenU(SPACING(u)) > 0) else None)
        I.overrides['ps_space'] = Builtin('ps_space', space)

        def prefix(I, a, kw):
            I.oblige('what is shared is found among the spacing of the lines that are not blank', I.seq_of(a[0]) == SHARED(S.m))
            return SStr([OStr(I.fu('cutting'), S.c)])
        I.overrides['os.path.commonprefix'] = Builtin('commonprefix', prefix)
        merged = I.new_list([(I.fint('p'), I.fint('d'))])

        def table(o):
            p = o.payload
            if p.kind == 'conc' and not p.items:
                p = I.to_kind(p, ('tup', 2))
            M = S.m
            n = NUM(M) + (1 if tail else 0)
            j = z3.Int('j!q')
            end = z3.And(0 <= j, j < NUM(M))
            I.oblige('an entry where spacing is removed, one for each character added', z3.And(p.n == n, z3.ForAll([j], z3.Implies(
                end, z3.And(z3.Select(p.arrs[0], j) == z3.Select(T0(M, 0), j), z3.Select(p.arrs[1], j) == z3.Select(T1(M, 0), j))))))
            if tail:
                I.oblige('an entry for the end that is dropped', z3.And(z3.Select(p.arrs[0], NUM(M)) == OP(M), z3.Select(p.arrs[1], NUM(M)) == TOT(M) + I.strlenU(LINE(M))))

        def merge(I, a, kw):
            if origin:
                I.oblige('the offsets of the expansion are merged with those of the re-indentation', a[0] is old)
                table(a[1])
            return merged
        I.overrides['_merge_offset'] = Builtin('_merge_offset', merge)
        I.hints = S.hints
        I.hints_only = True
        I.empty_set_sort = IntS
        r = I.call(I.getattr(node, 'trim_with_browse'), [plain], {})
        if not seen:
            I.oblige('nothing is done only to an empty text', z3.And(t.ps[0].n == 0))
            I.oblige('and nothing is done', r is plain)
            return
        I.cover('re-indented')
        I.oblige('the result has references', isinstance(r, Obj) and r.cls.name == 'RESULT')
        S.unfold(S.m - 1)
        I.oblige('blank lines as they are, the others without what is shared, the indentation before all but the first', I.box(I.strval(r)) == TEXTS(S.m))
        I.oblige('the references are those of the expansion', r.fields['browse'] is refs)
        if origin:
            if had:
                I.oblige('the offsets are the merged ones', r.fields['offset'] is merged)
            else:
                table(r.fields['offset'])
    return I.verify('TRIM.trim_with_browse', body)


def plain(I, text, **kw):
    return I.new('PLAIN', text, input_file=I.ostr('file'), pos=I.fint('pos'), **kw)


def trimmed(I):
    """Spacing after what sets names goes, up to the next character that is no spacing."""
    def body(I):
        m, conf = classes(I)
        on, flag = I.choose(2) == 1, I.choose(2) == 1
        conf.attrs = dict(conf.attrs, pp_trim_app_indent=on)
        T = Text('T')
        I.assume(T.n >= 0)
        x = plain(I, SStr([View(T, z3.IntVal(0), T.n)]), indent=False, trim=flag)
        browse = I.choose(2) == 1
        r = I.call(I.getattr(x, 'get_trimmed_with_browse' if browse else 'get_trimmed'), [], {})
        I.cover('trimmed' if on and flag else 'not trimmed')
        v = I.view(I.strval(r)) if I.strval(r) is not None else None
        if v is None:
            if I.strval(r) == '':
                v = View(T, T.n, T.n)
            else:
                raise Unsupported('the text of a leaf')
        I.oblige('it is the end of the text', z3.And(v.b == T.n, 0 <= v.a, v.a <= T.n))
        if not (on and flag):
            I.oblige('all of it', v.a == 0)
        else:
            from pyvc.models import PYSPACE, in_ranges
            j = z3.Int('j!q')
            I.oblige('what is dropped is spacing', z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < v.a), in_ranges(z3.Select(T.arr, j), PYSPACE))))
            I.oblige('all the spacing there is', z3.Or(v.a == T.n, z3.Not(in_ranges(z3.Select(T.arr, v.a), PYSPACE))))
        if browse:
            I.oblige('it knows its place', z3.And(I.it(r.fields['pos']) == I.it(x.fields['pos']) + v.a, I.box(r.fields['input_file']) == I.box(x.fields['input_file'])))
    return I.verify('PLAIN.get_trimmed', body)


def add_indent(I):
    def body(I):
        classes(I)
        mode = I.choose(3)
        ind = [None, False, I.ostr('indent')][mode]
        text, more = I.ostr('text'), I.ostr('more')
        flag = I.fbool('trim')
        x = plain(I, text, indent=ind, trim=flag)
        r = I.call(I.getattr(x, 'add_indent'), [more], {})
        I.cover('indented')
        if mode == 0:
            I.oblige('spacing is left as it is', r is x)
            return
        f = z3.Function('str.replace', U, U, U, U)
        I.oblige('a leaf', isinstance(r, Obj) and r.cls.name == 'PLAIN')
        I.oblige('the indentation follows every line end', I.box(I.strval(r)) == f(I.box(text), I.box('\n'), I.catU(I.box('\n'), I.box(more))))
        if mode == 1:
            I.oblige('no indentation at the end', r.fields['indent'] is False)
        else:
            s = I.strval(r.fields['indent'])
            I.oblige('the indentation at the end is longer', s is not None and I.box(s) == I.catU(I.box(more), I.box(ind)))
        I.oblige('the mark is kept', I.bt(r.fields['trim']) == I.bt(flag))
    return I.verify('PLAIN.add_indent', body)


UNITS = [('_split_lines', split_lines), ('TRIM.trim', trim), ('TRIM.trim_with_browse, an indentation', lambda I: with_browse(I, False, 1)),
         ('TRIM.trim_with_browse, none', lambda I: with_browse(I, False, 0)), ('PLAIN.get_trimmed', trimmed), ('PLAIN.add_indent', add_indent)]
TRUSTED = ['textwrap.dedent and os.path.commonprefix of Python', 'ps_space by contract (C03)', '_merge_offset by contract (C08)']
ASSUMPTIONS = []
