"""C05: text outside macro forms is reproduced.  The leaves the text rule collects tile the text
between its start and what is left; the evaluation of a text keeps what its items become in their
order; the rendering puts them one after the other."""
import z3
from pyvc.values import *
from . import parser as P
from . import evalmodel as E
from . import C03
from . import C07
from .C11 import count
from .C13 import hazard
from .C08 import table
from .C09 import opaque

IntS = z3.IntSort()
SeqU = z3.SeqSort(U)
BEG = z3.Function('begins at', U, IntS)
END = z3.Function('ends at', U, IntS)
BEGS = z3.Function('the list begins at', SeqU, IntS)
ENDS = z3.Function('the list ends at', SeqU, IntS)
COVER = z3.Function('covered up to', SeqU, IntS)     # -1 if it does not cover


class Covered(P.PS):
    """The rule stands for the text between the start and the rest."""

    def apply(self, I, args, fn):
        a = I.view(args['sou'].payload).a if P.is_source(I, args['sou']) else None
        rest, leg = P.PS.apply(self, I, args, fn)
        if leg is not None and a is not None:
            r = I.view(rest.payload).a
            u = I.box(leg)
            I.assume(z3.And(BEG(u) == a, END(u) == r))
            if self.name == 'ps_import':
                y = z3.Const(I.fresh_name('imported'), SeqU)
                I.assume(z3.And(BEGS(y) == a, ENDS(y) == r, z3.Length(y) > 0))
                leg.fields['ast'] = Obj(I.builtin_classes['list'], ListP('seq', seq=y))
        return rest, leg


class CoveredPlain(P.PlainGen):
    def next(self, I, o):
        v = P.PlainGen.next(self, I, o)
        w = I.view(v[1].payload)
        u = I.box(v[1])
        I.assume(z3.And(BEG(u) == w.a, END(u) == w.b))
        return v


def unfold(I, s):
    """The definition of COVER, from the structure of the sequence."""
    done = I.ghost.setdefault('unfolded', {})
    if s.get_id() in done:
        return
    done[s.get_id()] = s
    a0 = I.ghost['a0']
    I.assume(COVER(z3.Empty(SeqU)) == a0)
    k = s.decl().kind()
    if k == z3.Z3_OP_SEQ_CONCAT:
        args = [s.arg(i) for i in range(s.num_args())]
        if args[-1].decl().kind() == z3.Z3_OP_SEQ_CONCAT:
            args = args[:-1] + [args[-1].arg(i) for i in range(args[-1].num_args())]
            flat = z3.Concat(*args)
            I.assume(flat == s)
            return unfold(I, flat)
        last = args[-1]
        pre = z3.Concat(*args[:-1]) if len(args) > 2 else args[0]
        unfold(I, pre)
        if last.decl().kind() == z3.Z3_OP_SEQ_UNIT:
            x = last.arg(0)
            I.assume(COVER(s) == z3.If(BEG(x) == COVER(pre), END(x), -1))
        elif last.decl().kind() == z3.Z3_OP_SEQ_EXTRACT:
            I.assume(z3.Implies(z3.Length(last) == 0, z3.And(s == pre, COVER(s) == COVER(pre))))
            unfold(I, last.arg(0))
        else:
            I.assume(COVER(s) == z3.If(z3.Length(last) == 0, COVER(pre), z3.If(BEGS(last) == COVER(pre), ENDS(last), -1)))
    elif k == z3.Z3_OP_SEQ_EXTRACT:
        t = s.arg(0)
        n = z3.Length(t)
        unfold(I, t)
        x = t[n - 1]
        I.assume(z3.Implies(z3.And(n > 0, s.arg(1) == 0, s.arg(2) == n - 1), z3.And(COVER(t) == z3.If(BEG(x) == COVER(s), END(x), -1), t == z3.Concat(s, z3.Unit(x)))))


def text(I):
    P.setup(I)
    for n in list(P.LEGS) + list(P.BLANKS):
        I.contracts[n] = Covered(n)
    I.contracts['ps_plain'] = CoveredPlain()

    def last(s):
        return s[z3.Length(s) - 1]

    def more(I, ctx, vals, ints, views):
        out = []
        for a, v in sorted(vals.items()):
            if not (isinstance(v, Obj) and isinstance(v.payload, ListP) and v.payload.kind in ('seq', 'conc')):
                continue
            try:
                s = I.seq_of(v)
            except Unsupported:
                continue
            unfold(I, s)
            for w, x in sorted(views.items()):
                out.append(('%s covers the text up to %s' % (a, w), COVER(s) == x.a))
                for b, g in sorted(vals.items()):
                    if isinstance(g, GenObj) and 'k' in g.g:
                        for w2, y in sorted(views.items()):
                            if w2 != w:
                                out.append(('the last of %s is of %s if %s is %s' % (a, b, w, w2), z3.Implies(x.a == y.a, z3.And(z3.Length(s) > 0, BEG(last(s)) == I.it(g.g['a'])))))
        return out

    def tiled(I, a, v):
        I.cover('text')
        rest, leg = v
        r = I.view(rest.payload).a
        lst = leg.fields.get('ast')
        s = I.seq_of(lst)
        unfold(I, s)
        I.oblige('the leaves cover the text from the start to the rest, in order', COVER(s) == r)
    I.ghost_init = {'more_hints': more}
    I.ghost_init = {'more_hints': more}
    return P.verify_gen(I, 'ps_text', tiled)


EL = z3.Function('item', IntS, U)
VAL = z3.Function('value of item', IntS, U)
OUT = z3.Function('text so far', IntS, SeqU)
PUT = z3.Function('added by item', IntS, U)
LATE = z3.Function('an application reduced now', IntS, z3.BoolSort())
SKIPS = z3.Function('skipping', IntS, IntS)
IND = z3.Function('indentation before', IntS, U)
TRIMMED = z3.Function('TRIM', U, U, U)
INDENT = z3.Function('indent', U, U)
LATER = z3.Function('items from', IntS, U)


def seqs(I, ctx):
    for n, v in sorted(ctx['fr'].vars.items()):
        if isinstance(v, Obj) and isinstance(v.payload, ListP) and v.payload.kind in ('seq', 'conc') and v.cls.name in ('T', 'list', 'LIST'):
            try:
                yield n, I.seq_of(v)
            except Unsupported:
                pass


def items(I):
    """A text: every item is evaluated once, in order, and the text is what they become."""
    defined = {}
    def body(I):
        S = E.Step(I, raising=True)
        env = E.env(I)
        n = count(I, 'items')
        hazard(I)
        I.assume(z3.And(I.box(True) != I.box(False), z3.Not(I.truthU(I.box(False))), I.typ(I.box(True)) == I.tag('bool'), I.typ(I.box(False)) == I.tag('bool')))
        isa = lambda u, c: I.bt(I.isinst(Sym(u), I.cls(c)))
        none = lambda u: I.typ(u) == I.tag('NoneType')
        src = I.new('T', ListP('fn', n=n, get=lambda k: I.sym(None, u=EL(k))), indent=I.sym(['str', 'NoneType', 'bool'], u=IND(0)))
        seen = Obj(I.builtin_classes['list'], ListP('tup', n=z3.IntVal(0), arrs=[z3.K(IntS, z3.IntVal(0))], k=0))
        I.roots = {'evaluated': seen}

        def field(I, o, name):
            if name == 'add_indent':        # the same item, indented (C09)
                return Builtin('add_indent', lambda I, a, kw: o)
            if name == 'indent' and getattr(o, 'u', None) is not None:
                I.ghost['indents'] = True
                v = o.fields['indent'] = I.sym(['str', 'NoneType', 'bool'], u=INDENT(o.u))
                return v
            v = S.sym_field(I, o, name)
            if name == 'ast' and v is not NotImplemented and isinstance(v, Sym):
                I.assume(z3.Not(isa(v.u, 'EMBED')))     # what is put in: values 4 and 6 below
            return v
        I.sym_field = field

        def unfold(k):
            """What item k contributes, and what it leaves."""
            done = I.ghost.setdefault('defined', {})
            k = z3.simplify(k)
            if k.get_id() in done:
                return
            done[k.get_id()] = k
            if k.get_id() not in defined:
                defined[k.get_id()] = (k, list(definition(k)))
            for f in defined[k.get_id()][1]:
                I.assume(f)

        def definition(k):
            el, v = EL(k), VAL(k)
            skipping, comment = SKIPS(k) > 0, isa(el, 'COMMENT')
            mark = z3.Or(isa(v, 'IMPORT_BEGIN'), isa(v, 'IMPORT_END'), isa(v, 'SKIP'))
            idle = z3.Or(skipping, comment, none(v), mark)
            for x in (INDENT(el), IND(k)):          # nothing, a text or False
                yield (z3.Implies(I.typ(x) == I.tag('bool'), x == I.box(False)))
                yield (z3.Implies(I.typ(x) == I.tag('str'), I.truthU(x) == (x != I.box(''))))
            x = v
            app = z3.Or(isa(el, 'APPLY'), LATE(k))
            yield (z3.Implies(z3.Not(app), PUT(k) == x))
            yield (z3.Implies(z3.And(app, I.typ(IND(k)) == I.tag('str')), PUT(k) == TRIMMED(x, IND(k))))
            yield (z3.Implies(z3.And(app, I.typ(IND(k)) != I.tag('str')), PUT(k) == TRIMMED(x, I.box(''))))
            yield (z3.Implies(idle, OUT(k + 1) == OUT(k)))
            yield (z3.Implies(z3.Not(idle), OUT(k + 1) == z3.Concat(OUT(k), z3.Unit(PUT(k)))))
            yield (SKIPS(k + 1) == z3.If(skipping, z3.If(isa(el, 'IMPORT_BEGIN'), SKIPS(k) + 1, z3.If(isa(el, 'IMPORT_END'), SKIPS(k) - 1, SKIPS(k))),
                                           z3.If(z3.And(z3.Not(comment), z3.Not(none(v)), isa(v, 'SKIP')), 1, 0)))
            yield (IND(k + 1) == z3.If(idle, IND(k), z3.If(isa(el, 'PLAIN'), z3.If(none(INDENT(el)), IND(k), INDENT(el)), I.box(False))))
        I.assume(z3.And(OUT(0) == z3.Empty(SeqU), SKIPS(0) == 0, z3.Implies(I.typ(IND(0)) == I.tag('bool'), IND(0) == I.box(False))))

        def new(I, cls, o):
            if cls.name == 'TRIM':
                I.assume(I.box(o) == TRIMMED(I.box(o.fields['ast']), I.box(o.fields['indent'])))
        I.on_new = new

        def changed(I, o, name, v):
            u = o.u
            if not (z3.is_app(u) and u.decl().eq(EL)) or name not in ('trim', 'indent', 'ast'):
                return
            if name != 'trim':
                I.oblige('the items stay as they are', False)
            k = z3.simplify(u.arg(0) - 1)
            sets = 'rest' in got and got['rest'][0] == 'ENV'
            I.oblige('spacing goes only after what sets names, or after a comment',
                     z3.Or(isa(EL(k), 'COMMENT'), got['rest'][1] == k if sets else False))
        I.on_setattr = changed

        OTHER = ['EMBED', 'ENV', 'SKIP', 'IMPORT_BEGIN', 'IMPORT_END', 'NoneType']
        got = {}

        def remaining(I, lst, k, label, before=None):
            """lst holds what follows item k."""
            m = I.it(I.list_len(lst))
            j = I.fint('j').t
            if before is None:
                I.oblige('%s: as many as are left' % label, m == n - k - 1)
                I.assume(z3.And(0 <= j, j < m))
                I.oblige('%s: the same, in order' % label, I.box(I.list_get(lst, SInt(j))) == EL(k + 1 + j))
            else:
                l, EMB = before
                I.oblige('%s: as many as are left' % label, m == l + n - k - 1)
                I.assume(z3.And(0 <= j, j < m))
                I.oblige('%s: the same, in order' % label, I.box(I.list_get(lst, SInt(j))) == z3.If(j < l, EMB(j), EL(k + 1 + j - l)))

        def late(v):
            return I.new('TRIM', None, ast=v, indent=I.ostr('indent')) if I.choose(2) else v

        def ev(I, x, e):
            if 'rest' in got and 'value' not in got:
                kind, k, more = got['rest']
                I.oblige('the rest is evaluated in the environment of the text', e is env)
                if kind == 'ENV':
                    I.oblige('the rest is evaluated with the names set', isinstance(x, Obj) and x.cls.name == 'SET_CLOSURE' and x.fields['env'] is more)
                    remaining(I, x.fields['form'], k, 'the rest after names are set')
                    I.oblige('the rest is a text', x.fields['form'].cls.name == 'T')
                    v = I.sym(None, 'value of the rest')
                    got['value'] = z3.Unit(v.u)
                else:
                    I.oblige('the rest is a text', isinstance(x, Obj) and x.cls.name == 'T')
                    remaining(I, x, k, 'the text put in and the rest', more)
                    if I.choose(2):
                        y = z3.Const(I.fresh_name('tail'), SeqU)
                        v = I.new('T', ListP('seq', seq=y), indent='')
                        got['value'] = y
                    else:
                        v = I.sym(['SET_CLOSURE', 'str', 'L_CLOSURE', 'INT', 'NoneType'], 'value of the rest')
                        got['value'] = z3.Unit(v.u)
                return v
            u = I.box(x)
            I.oblige('only items are evaluated', z3.is_app(u) and u.decl().eq(EL))
            k = u.arg(0)
            if got:
                I.oblige('nothing is evaluated after the rest', False)
            I.oblige('an item is evaluated in the environment of the text', e is env)
            I.oblige('the items are evaluated in order, once each', z3.And(I.it(I.list_len(seen)) <= k, k < n))
            I.wrote(seen, 'payload')
            seen.payload.n = k + 1
            kind = I.choose(8)
            r = None
            if kind == 0:
                part = I.uNone
                I.assume(none(part))
            elif kind == 1:
                r = I.sym(None, 'value')
                for c in OTHER[:-1]:
                    I.assume(z3.Not(isa(r.u, c)))
                I.assume(z3.Not(none(r.u)))
                part = r.u
            elif kind == 2:
                r = I.new('SKIP', None)
                part = I.box(r)
            elif kind == 3:
                r = I.new(['IMPORT_BEGIN', 'IMPORT_END'][I.choose(2)], None)
                part = I.box(r)
            elif kind == 4:
                r = I.sym(['VAR', 'APPLY', 'L_CLOSURE', 'LIST', 'INT', 'STR', 'FLOAT', 'ATOM', 'str'], 'embedded')
                part = r.u
                r = late(I.new('EMBED', None, ast=r))
                I.assume(LATE(k) == (r.cls.name == 'TRIM'))
            elif kind == 5:
                r = I.new('ENV', DictP({'y': 2}), parent=None, order=I.new_list([I.new('ATOM', 'y', input_file='f', pos=0)]))
                got['rest'] = ('ENV', k, r)
                return r
            elif kind == 6:
                l = count(I, 'items put in')
                EMB = z3.Function('item put in', IntS, U)
                lst = I.new('T', ListP('fn', n=l, get=lambda j: I.sym(None, u=EMB(j))), indent='')
                lst.ghost['setitem'] = lambda I, o, j, v: I.oblige('an item put in stays where it is', I.box(v) == EMB(I.it(j)))
                got['rest'] = ('EMBED', k, (l, EMB))
                return late(I.new('EMBED', None, ast=lst))
            else:
                got['raised'] = 1
                I.throw('TypeError', 'yueval: message')
            I.assume(VAL(k) == part)
            if kind != 4:
                I.assume(z3.Not(LATE(k)))
            unfold(k)
            return r
        S.on_eval = ev

        def hints(I, ctx, vals, ints, views):
            out = []
            for a, t in sorted(ints.items()):
                if a == ctx['idx'] and a == min(x for x in ints if 'idx' in x):
                    unfold(t - 1)
                    unfold(t)
                    out.append(('evaluated before %s' % a, I.it(I.list_len(seen)) <= t))
                    out += [('%s holds what was contributed before %s' % (b, a), s == OUT(t)) for b, s in seqs(I, ctx)]
                    out += [('%s counts what is skipped at %s' % (b, a), q == SKIPS(t)) for b, q in sorted(ints.items()) if b != a]
                    out += [('indentation before %s' % a, I.box(src.fields['indent']) == IND(t)), ('indentation is a text or none', z3.Implies(I.typ(IND(t)) == I.tag('bool'), IND(t) == I.box(False)))]
            return out
        I.hints = hints
        shown = []

        def plain(I, a, kw):
            shown.append(a[0])
            v = I.ostr('rendered')
            shown.append(v)
            return v
        I.overrides['_plain'] = I.overrides['_plain_with_browse'] = Builtin('_plain', plain)
        C07.classes(I)
        conf = I.module_get(I.prog.module('pp.yugen'), 'config')
        conf.attrs.update(pp_browse=I.fbool('browse'), pp_trim_app_indent=I.fbool('trim'))
        I.hints_only = True
        out = S.run(src, env)
        if got.get('raised'):
            I.oblige('an error of an item is passed on', out[0] == 'raise')
            return
        I.oblige('a text has a value', out[0] == 'value')
        v = out[1]
        if shown:
            I.cover('rendered')
            I.oblige('what is rendered is the value', v is shown[1])
            v = shown[0]
            I.oblige('rendered when it is final', E.TERM(I.box(v)))
        ok = isinstance(v, Obj) and v.cls.name == 'T'
        I.oblige('the value of a text is a text', ok)
        want = OUT(n)
        if 'rest' in got:
            kind, k, _ = got['rest']
            I.cover('rest after ' + kind)
            if kind == 'ENV':
                I.oblige('the rest is evaluated if there is one', z3.BoolVal('value' in got) == (k + 1 < n))
            else:
                I.oblige('the rest is evaluated', 'value' in got)
            want = z3.Concat(OUT(k), got['value']) if 'value' in got else OUT(k)
        else:
            I.cover('done')
        I.oblige('the text is what the items become, in order', I.seq_of(v) == want)
    return I.verify('yueval.T', body)


def leaf(I):
    """A leaf is its own value; a text stands for its items."""
    def body(I):
        S = E.Step(I, raising=True)
        env = E.env(I)
        C07.classes(I)
        hazard(I)
        cls = ['PLAIN', 'STR', 'REMARK', 'INT', 'FLOAT', 'TEXT'][I.choose(6)]
        I.cover(cls)
        if cls == 'TEXT':
            n = count(I, 'items')
            lst = Obj(I.builtin_classes['list'], ListP('fn', n=n, get=lambda k: I.sym(None, u=EL(k))))
            x = I.new('TEXT', None, ast=lst, pth_sq=0, pth=0)
            out = S.run(x, env)
            I.oblige('the items of a text are evaluated', out[0] == 'eval' and isinstance(out[1], Obj) and out[1].cls.name == 'T' and out[2] is env)
            I.oblige('all of them', I.it(I.list_len(out[1])) == n)
            j = I.fint('j').t
            I.assume(z3.And(0 <= j, j < n))
            I.oblige('in order', I.box(I.list_get(out[1], SInt(j))) == EL(j))
            return
        t = I.ostr('text')
        f = dict(input_file=I.ostr('file'), pos=I.fint('pos'))
        if cls == 'PLAIN':
            f.update(indent=I.ostr('indent') if I.choose(2) else None, trim=I.fbool('trim'))
        payload = {'INT': I.fint('value'), 'FLOAT': None}.get(cls, t)
        x = I.new(cls, payload, **f)
        out = S.run(x, env)
        I.oblige('a leaf is its own value', out[0] == 'value' and out[1] is x and not S.trace)
        I.oblige('it stays as it is', z3.And([z3.BoolVal(x.payload is payload)] + [z3.BoolVal(x.fields[a] is v) for a, v in f.items()]))
    return I.verify('yueval, a leaf', body)


REND = z3.Function('rendered', U, U)
REN = z3.Function('rendered so far', IntS, U)


class Method:
    def __init__(self, h):
        self.h = h

    def apply(self, I, args, fn):
        v = list(args.values())
        return self.h(I, v[0], v[1:], {})


def render(name):
    """The text of a value: that of what it holds, of all the elements in order, of a leaf its own."""
    browse = name != '_plain'

    def run(I):
        def body(I):
            m, conf = C07.classes(I)
            fn = I.module_get(m, name)

            def result(u):
                t = opaque(I, u)
                return I.new('RESULT', t, browse=table(I, 'browse', 3), offset=table(I, 'offset')) if browse else t

            def rec(I, a, kw):
                u = I.box(a[0])
                return result(REND(u))
            I.overrides[name] = Builtin(name, rec)
            n = I.fint('elements').t
            I.assume(z3.And(n >= 0, REN(0) == I.box('')))

            def unfold(k):
                done = I.ghost.setdefault('defined', {})
                k = z3.simplify(k)
                if k.get_id() not in done:
                    done[k.get_id()] = k
                    I.assume(z3.Implies(k >= 0, REN(k + 1) == z3.If(k == 0, REND(EL(0)), I.catU(REN(k), REND(EL(k))))))
                    # nothing before or after a text leaves it as it is
                    I.assume(z3.Implies(k == 0, I.catU(REN(k), REND(EL(k))) == REND(EL(k))))
                    I.assume(z3.Implies(I.strlenU(REND(EL(k))) == 0, I.catU(REN(k), REND(EL(k))) == REN(k)))

            def text_of(v):
                s = I.strval(v)
                if s is None:
                    raise Unsupported('no text')
                return I.box(s)

            def hints(I, ctx, vals, ints, views):
                out = []
                for a, t in sorted(ints.items()):
                    if a == ctx['idx']:
                        unfold(t - 1)
                        unfold(t)
                        for b, v in sorted(vals.items()):
                            if I.strval(v) is not None:
                                out.append(('%s is the text of the first %s' % (b, a), I.box(I.strval(v)) == REN(t)))
                return out
            I.hints = hints
            j = I.fint('j').t

            def parts(src):
                """It yields what the elements are rendered to, in order."""
                k = src.n if isinstance(src, IterSrc) else z3.IntVal(len(src))
                I.oblige('as many as there are', k == n)
                if isinstance(src, list):
                    for i, v in enumerate(src):
                        I.oblige('the elements, in order', text_of(v) == REND(EL(i)))
                else:
                    I.assume(z3.And(0 <= j, j < n))
                    I.oblige('the elements, in order', text_of(src.get(j)) == REND(EL(j)))

            def join(I, s, v):
                I.oblige('nothing goes between the elements', s == '')
                parts(I.iterate(v))
                return opaque(I, REN(n))
            I.join_hook = join

            def reduce(I, a, kw):
                I.oblige('from the first on', len(a) == 2)
                parts(I.iterate(a[1]))
                acc, unit = result(REN(j)), result(REND(EL(j)))
                I.assume(z3.And(1 <= j, j < n))
                unfold(j)
                I.oblige('what is next follows what there is', text_of(I.call(a[0], [acc, unit], {})) == REN(j + 1))
                unfold(z3.IntVal(0))
                return result(REN(n))

            def method(c, f, h):        # by its contract (C08, C09)
                I.contracts[c + '.' + f] = Method(h)
            method('RESULT', 'loc', lambda I, o, a, kw: table(I, 'where', 3))
            kind = I.choose(5)
            if kind == 0:
                I.cover('list')
                I.overrides['reduce'] = I.overrides['functools.reduce'] = Builtin('reduce', reduce)
                node = I.new(['LIST', 'T'][I.choose(2)], ListP('fn', n=n, get=lambda k: I.sym(None, u=EL(k))), indent='')
                want = REN(n)
            elif kind == 1:
                I.cover('holds a value')
                a = I.sym(None, 'ast')
                if I.choose(2):
                    node = I.new('LAZY', None, ast=a)
                    want = REND(a.u)
                else:
                    node = I.new('TRIM', None, ast=a, indent='')
                    want = z3.Function('lines indented', U, U)(REND(a.u))

                    def trim(I, o, a, kw):
                        return result(z3.Function('lines indented', U, U)(text_of(a[0])))
                    method('TRIM', 'trim', trim)
                    method('TRIM', 'trim_with_browse', trim)
            elif kind == 2:
                I.cover('nothing')
                node, want = None, I.box('')
            elif kind == 3:
                I.cover('leaf')
                t = I.ostr('text')
                node = I.new(['STR', 'ATOM', 'REMARK', 'RESULT'][I.choose(4)], t, input_file=I.ostr('file'), pos=I.fint('pos'),
                             browse=table(I, 'browse', 3), offset=table(I, 'offset'))
                want = I.box(t)
            else:
                I.cover('plain')
                t, p = I.ostr('text'), I.fint('pos')
                f = I.ostr('file')
                node = I.new('PLAIN', I.ostr('untrimmed'), input_file=f, pos=p, indent=None, trim=I.fbool('trim'))
                method('PLAIN', 'get_trimmed', lambda I, o, a, kw: t)
                method('PLAIN', 'get_trimmed_with_browse', lambda I, o, a, kw: I.new('PLAIN', t, input_file=f, pos=p, indent=None, trim=False))
                want = I.box(t)
            r = I.run_func(fn, [node], {})
            I.oblige('the text', text_of(r) == want)
        return I.verify(name, body)
    return run


UNITS = [('ps_text', text), ('ps_plain', C03.unit('ps_plain')), ('ps_quote', C03.unit('ps_quote')), ('ps_remark_c', C03.unit('ps_remark_c')),
         ('ps_remark_python', C03.unit('ps_remark_python')), ('yueval.T', items),  ('yueval, a leaf', leaf),
         ('_plain', render('_plain')), ('_plain_with_browse', render('_plain_with_browse'))]
TRUSTED = ['the rules ps_text() calls by their contracts (C01, C03)', 'PLAIN.get_trimmed, PLAIN.add_indent and TRIM.trim by their contracts (C09)',
           'functools.reduce, map and str.join of Python']
ASSUMPTIONS = ['what an import brings stands for the import form; one that brings nothing is one item of nothing',
               'the indentation of a text and of a leaf is nothing, a text or False',
               'the evaluation of an item is taken as any value: each form has its own property']
