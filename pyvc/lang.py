"""Strings made of constant parts and of parts known only by a regular language, each
independent of the others.  Questions about them are decided by finite automata
(rxstr.search), so the answers hold for parts of any length; a question that some parts
answer one way and some the other is refused (Unsupported), never guessed."""
import re
import itertools
import z3
from .values import *
from . import rx, rxstr
from .rxstr import Lang, Prefix, Ends, Has, Map, ALPHA

C = rx.C


class LPiece(OStr):
    __slots__ = ('lang',)

    def __init__(self, u, n, lang):
        OStr.__init__(self, u, n)
        self.lang = lang

    def __repr__(self):
        return 'L(%s)' % self.lang


def piece(I, name, lang):
    n = z3.Int(I.fresh_name(name + '.len'))
    lo, hi = re._parser.parse(lang).getwidth()
    I.assume(n >= min(lo, 1000))
    if hi < 1000:
        I.assume(n <= hi)
    p = LPiece(I.fu(name), n, lang)
    I.ghost['lpieces'] = I.ghost.get('lpieces', ()) + ((name, p),)
    return p


def has(s):
    return isinstance(s, SStr) and any(isinstance(p, LPiece) for p in s.ps)


def pure(s):
    return isinstance(s, str) or isinstance(s, SStr) and all(isinstance(p, (str, LPiece)) for p in s.ps)


def pat(s):
    ps = [s] if isinstance(s, str) else s.ps
    out = []
    for p in ps:
        if isinstance(p, str):
            out.append(re.escape(p))
        elif isinstance(p, LPiece):
            out.append('(?:%s)' % p.lang)
        else:
            raise Unsupported('a string of unknown language')
    return ''.join(out)


_memo = {}


def decide(s, pred, key):
    """True / False / None (both are possible): the predicate holds for the string."""
    k = (pat(s), key)
    if k not in _memo:
        c = [((), Lang(k[0]), True)]
        t = rxstr.search(c + [((), pred, True)])
        f = rxstr.search(c + [((), pred, False)])
        _memo[k] = True if f is None else False if t is None else None
    return _memo[k]


def ask(s, pred, key):
    r = decide(s, pred, key)
    if r is None:
        raise Unsupported('a string of which only some have the property %r' % (key,))
    return r


def samples(p, n=3):
    """Some words of the language of a piece."""
    k = ('samples', p.lang)
    if k not in _memo:
        out, cons = [], [((), Lang(p.lang), True)]
        while len(out) < n:
            w = rxstr.search(cons)
            if w is None:
                break
            out.append(w)
            cons.append(((), Lang(re.escape(w)), False))
        _memo[k] = out
    return _memo[k]


def assignments(*ropes):
    """Concrete texts of the ropes, for some choices of their parts."""
    parts = []
    for s in ropes:
        for p in ([] if isinstance(s, str) else s.ps):
            if isinstance(p, LPiece) and p not in parts:
                parts.append(p)
    for ws in itertools.islice(itertools.product(*[samples(p) for p in parts]), 200):
        d = dict(zip(map(id, parts), ws))
        yield tuple(s if isinstance(s, str) else ''.join(p if isinstance(p, str) else d[id(p)] for p in s.ps) for s in ropes)


def same(a, b):
    """True if equal for every choice of the parts, a pair of different texts if not, None
    if neither was established."""
    pa = [a] if isinstance(a, str) else list(a.ps)
    pb = [b] if isinstance(b, str) else list(b.ps)
    pa, pb = [p for p in pa if p != ''], [p for p in pb if p != '']
    if len(pa) == len(pb) and all(p == q if isinstance(p, str) and isinstance(q, str) else p is q for p, q in zip(pa, pb)):
        return True
    for x, y in assignments(a, b):
        if x != y:
            return (x, y)
    return None


def oblige_same(I, label, got, want):
    if not pure(got):
        raise Unsupported('%s: a string of unknown origin' % label)
    r = same(got, want)
    if r is True:
        I.oblige(label, True)
    elif r is None:
        raise Unsupported(label)
    else:
        I.ghost['witness'] = r
        I.oblige('%s (%r instead of %r)' % ((label,) + r), False)


def strip_common(I, a, b):
    """Both without what they have in common at the beginning and at the end."""
    pa, pb = ([s] if isinstance(s, str) else list(s.ps) for s in (a, b))
    for end in (0, -1):
        while pa and pb:
            x, y = pa[end], pb[end]
            if x is y and not isinstance(x, str):
                del pa[end], pb[end]
                continue
            if isinstance(x, str) and isinstance(y, str):
                n = 0
                while n < min(len(x), len(y)) and x[n if end == 0 else -1 - n] == y[n if end == 0 else -1 - n]:
                    n += 1
                if n == 0:
                    break
                for l, c in ((pa, x), (pb, y)):
                    c = c[n:] if end == 0 else c[:len(c) - n]
                    if c:
                        l[end] = c
                    else:
                        del l[end]
                continue
            break
    return I.mkstr(pa), I.mkstr(pb)


def eq(I, a, b):
    """Equality as a truth value of the program."""
    if same(a, b) is True:
        return True
    a, b = strip_common(I, a, b)
    if isinstance(a, str):
        a, b = b, a
    if isinstance(a, str):
        return a == b
    if isinstance(b, str):
        return ask(a, Lang(re.escape(b)), ('eq', b))
    la, lb = I.it(I.slen(a)), I.it(I.slen(b))
    if I.must(la != lb):
        return False
    if rxstr.search([((), Lang(pat(a)), True), ((), Lang(pat(b)), True)]) is None:
        return False
    raise Unsupported('equality of unknown strings')


# ----------------------------------------------------------------- case mapping
def sub(items, f):
    return ''.join(node(op, av, f) for op, av in items)


def charclass(cs):
    low = [c for c in cs if ord(c) < 128]
    if any(ord(c) >= 128 for c in cs):
        out = [c for c in ALPHA if ord(c) < 128 and c not in cs]
        return '[^%s]' % ''.join(re.escape(c) for c in out) if out else '[\\s\\S]'
    return '[%s]' % ''.join(re.escape(c) for c in low) if low else '(?!)'


def node(op, av, f):
    cs = rx.charset(op, av, 0)
    if cs is not None:
        if op is C.ANY:
            cs = rx.negate([(10, 10)])
        s = [c for c in ALPHA if any(a <= ord(c) <= b for a, b in cs)]
        return charclass(sorted({f(c) if len(f(c)) == 1 else c for c in s}))
    if op is C.SUBPATTERN:
        return '(?:%s)' % sub(av[3], f)
    if op is C.BRANCH:
        return '(?:%s)' % '|'.join(sub(x, f) for x in av[1])
    if op in (C.MAX_REPEAT, C.MIN_REPEAT):
        lo, hi, x = av
        return '(?:%s){%d,%s}' % (sub(x, f), lo, '' if hi is C.MAXREPEAT else hi)
    raise Unsupported('regular expression %s' % op)


def casemap(I, s, name):
    f = lambda c: getattr(c, name)()
    out = []
    for p in s.ps:
        if isinstance(p, str):
            out.append(f(p))
        elif isinstance(p, LPiece):
            m = I.ghost.setdefault('casemap', {})
            k = (id(p), name)
            if k not in m:
                m[k] = (LPiece(I.fu(name), p.n, sub(rx.parse(p.lang), f)), p)
            out.append(m[k][0])
        else:
            return NotImplemented
    return I.mkstr(out)


# ----------------------------------------------------------------- methods
def offset(I, ps):
    t = z3.IntVal(0)
    for p in ps:
        t = t + I.plen(p)
    return I.mkint(t)


def find(I, s, c, right=False):
    ps = list(s.ps)
    n = len(ps)
    for i in (range(n - 1, -1, -1) if right else range(n)):
        p = ps[i]
        if isinstance(p, str):
            j = p.rfind(c) if right else p.find(c)
            if j >= 0:
                return offset(I, ps[:i] + [p[:j]])
        elif ask(SStr([p]), Has(c), ('has', c)):
            r = I.fint('find')
            I.imprecise()
            b = I.it(offset(I, ps[:i]))
            I.assume(z3.And(r.t >= b, r.t + len(c) <= b + p.n))
            return r
    return -1


def strings(v):
    return (v,) if isinstance(v, str) else v if isinstance(v, tuple) and all(isinstance(x, str) for x in v) else None


def method(I, s, name, a, kw):
    k = [I.strval(x) if I.strval(x) is not None else x for x in a]
    if name in ('startswith', 'endswith') and len(k) == 1 and strings(k[0]) is not None:
        P = Prefix if name == 'startswith' else Ends
        return any(ask(s, P(re.escape(x)) if P is Prefix else P(x), (name, x)) if x else True for x in strings(k[0]))
    if name in ('lower', 'upper', 'casefold'):
        return casemap(I, s, 'lower' if name == 'casefold' else name)
    if name in ('find', 'rfind', 'index', 'rindex') and len(k) == 1 and isinstance(k[0], str) and k[0]:
        if len(k[0]) > 1:
            if not ask(s, Has(k[0]), ('has', k[0])):
                r = -1
            else:
                return NotImplemented
        else:
            r = find(I, s, k[0], name.startswith('r'))
        if r == -1 and name in ('index', 'rindex'):
            I.throw('ValueError', 'substring not found')
        return r
    if name == '__contains__' and isinstance(k[0], str):
        return ask(s, Has(k[0]), ('has', k[0])) if k[0] else True
    if name in ('__eq__', '__ne__') and k[0] is not None:
        r = eq(I, s, k[0])
        return r if name == '__eq__' else not r
    if name in ('partition', 'rpartition') and isinstance(k[0], str) and len(k[0]) == 1:
        parts = cut(I, s, k[0], name == 'rpartition')
        if parts is None:
            return (s, '', '') if name == 'partition' else ('', '', s)
        return (parts[0], k[0], parts[1])
    if name in ('split', 'rsplit') and len(k) == 2 and k[1] == 1 and isinstance(k[0], str) and len(k[0]) == 1:
        parts = cut(I, s, k[0], name == 'rsplit')
        return I.new_list([s] if parts is None else list(parts))
    return NotImplemented


def cut(I, s, c, right):
    """( before, after ) the first or the last c, or None."""
    ps = [s] if isinstance(s, str) else list(s.ps)
    n = len(ps)
    for i in (range(n - 1, -1, -1) if right else range(n)):
        p = ps[i]
        if isinstance(p, str):
            j = p.rfind(c) if right else p.find(c)
            if j >= 0:
                return I.mkstr(ps[:i] + [p[:j]]), I.mkstr([p[j + len(c):]] + ps[i + 1:])
        elif ask(SStr([p]), Has(c), ('has', c)):
            raise Unsupported('a string cut inside a part')
    return None


def index(I, s, i):
    ps = list(s.ps)
    if isinstance(i, int):
        if i >= 0 and isinstance(ps[0], str) and i < len(ps[0]):
            return ps[0][i]
        if i < 0 and isinstance(ps[-1], str) and -i <= len(ps[-1]):
            return ps[-1][i]
    return NotImplemented


# ----------------------------------------------------------------- regular expressions
def regex(I, rgx, name, s, a):
    """match / search / fullmatch of a rope."""
    if len(a) > 1 or not pure(s) or name not in ('match', 'search', 'fullmatch'):
        return NotImplemented
    items = list(rx.parse(rgx.pattern, rgx.flags))
    flags = rgx.flags
    if flags & re.MULTILINE:
        raise Unsupported('multiline pattern')
    end = bool(items) and items[-1][0] is C.AT and items[-1][1] in (C.AT_END, C.AT_END_STRING)
    beg = bool(items) and items[0][0] is C.AT and items[0][1] in (C.AT_BEGINNING, C.AT_BEGINNING_STRING)
    core = items[1 if beg else 0:len(items) - 1 if end else len(items)]
    ps = list(s.ps)
    # atoms of the rope: constant characters and parts
    atoms = []
    for p in ps:
        atoms.extend(list(p) if isinstance(p, str) else [p])
    N = len(atoms)

    def test(op, av, c):
        cs = rx.charset(op, av, flags)
        return any(x <= ord(c) <= y for x, y in cs)

    def maybe_empty(p):
        return rxstr.search([((), Lang(p.lang), True), ((), Lang(''), True)]) is not None

    def run(items, i, g, k):
        """Backtracking over atoms, as re does; k is the continuation."""
        if not items:
            return k(i, g)
        (op, av), rest = items[0], items[1:]
        if rx.charset(op, av, flags) is not None:
            if i < N and isinstance(atoms[i], str):
                return run(rest, i + 1, g, k) if test(op, av, atoms[i]) else None
            if i < N:
                raise Unsupported('a pattern that ends inside a part')
            return None
        if op is C.SUBPATTERN:
            def done(j, g2):
                if av[0] is not None:
                    g2 = dict(g2)
                    g2[av[0]] = (i, j)
                return run(rest, j, g2, k)
            return run(list(av[3]), i, g, done)
        if op is C.BRANCH:
            for x in av[1]:
                r = run(list(x) + rest, i, g, k)
                if r is not None:
                    return r
            return None
        if op in (C.MAX_REPEAT, C.MIN_REPEAT):
            lo, hi, x = av
            x = list(x)
            if len(x) == 1 and rx.charset(*x[0], flags) is not None:
                # as many atoms as possible
                stops = [(i, 0, False)]
                j, cnt, blob = i, 0, False
                while j < N and (hi is C.MAXREPEAT or cnt < hi):
                    at = atoms[j]
                    if isinstance(at, str):
                        if not test(*x[0], at):
                            break
                        cnt += 1
                    else:
                        if hi is not C.MAXREPEAT:
                            raise Unsupported('a bounded repetition over a part')
                        cl = charclass([c for c in ALPHA if any(p <= ord(c) <= q for p, q in rx.charset(*x[0], flags))])
                        if decide(SStr([at]), Lang('(?:%s)*' % cl), ('in', cl)) is not True:
                            raise Unsupported('a repetition that ends inside a part')
                        cnt += 0 if maybe_empty(at) else 1
                        blob = True
                    j += 1
                    stops.append((j, cnt, blob))
                if op is C.MAX_REPEAT:
                    stops.reverse()
                for j, cnt, blob in stops:
                    if cnt >= lo:
                        r = run(rest, j, g, k)
                        if r is not None:
                            return r
                    elif blob:
                        raise Unsupported('a repetition of unknown length')
                return None

            def again(n, i0, g0):
                def more(j, g2):
                    if j == i0 and n >= lo:
                        return None
                    return again(n + 1, j, g2)
                tries = []
                if hi is C.MAXREPEAT or n < hi:
                    tries.append(lambda: run(x, i0, g0, more))
                if n >= lo:
                    tries.append(lambda: run(rest, i0, g0, k))
                if op is C.MIN_REPEAT:
                    tries.reverse()
                for t in tries:
                    r = t()
                    if r is not None:
                        return r
                return None
            return again(0, i, g)
        raise Unsupported('regular expression %s' % op)

    def at_end(i, g):
        if name == 'fullmatch' or end:
            if i == N or end and items[-1][1] is C.AT_END and name != 'fullmatch' and atoms[i:] == ['\n']:
                return (i, g)
            if all(isinstance(p, LPiece) and maybe_empty(p) for p in atoms[i:]):
                raise Unsupported('the end of a string with an empty part')
            return None
        return (i, g)
    # no match at all for any choice of the parts?
    body = sub_pattern(core, flags)
    dollar = '\n?' if end and items[-1][1] is C.AT_END and name != 'fullmatch' else ''
    whole = ('' if beg or name != 'search' else '[\\s\\S]*') + body + (dollar if end or name == 'fullmatch' else '[\\s\\S]*')
    if decide(s, Lang(whole), ('rx', whole)) is False:
        return None
    m = None
    for st in ([0] if beg or name != 'search' else range(N + 1)):
        r = run(core, st, {}, at_end)
        if r is not None:
            m = (st,) + r
            break
        if name == 'search' and not beg and st < N and isinstance(atoms[st], LPiece):
            first = [at for at in atoms[st:]]
            raise_if_inside(I, core, atoms[st], flags)
    if m is None:
        return None
    st, en, gs = m

    def text(i, j):
        return I.mkstr(atoms[i:j])
    o = Obj(I.builtin_classes['Match'])

    def grp(I, o, a, kw):
        k = a[0] if a else 0
        if k == 0:
            return text(st, en)
        if isinstance(k, int) and 0 < k <= re.compile(rgx.pattern, flags).groups:
            return text(*gs[k]) if k in gs else None
        raise Unsupported('group %r' % (k,))

    def pos(which):
        def f(I, o, a, kw):
            k = a[0] if a else 0
            sp = (st, en) if k == 0 else gs.get(k)
            return -1 if sp is None else offset(I, atoms[:sp[which]])
        return f
    o.ghost['methods'] = {'group': grp, 'start': pos(0), 'end': pos(1)}
    return o


def raise_if_inside(I, core, p, flags):
    """A search may also begin inside a part: refuse unless it cannot."""
    fs, e = rx.first(core, flags)
    if fs is None or e:
        raise Unsupported('a search that may begin inside a part')
    cl = [c for c in ALPHA if any(a <= ord(c) <= b for a, b in fs)]
    for c in cl:
        if decide(SStr([p]), Has(c), ('has', c)) is not False:
            raise Unsupported('a search that may begin inside a part')


def sub_pattern(core, flags):
    """The pattern without anchors and groups, case folded into its classes."""
    def nd(op, av):
        cs = rx.charset(op, av, flags)
        if cs is not None:
            return charclass([c for c in ALPHA if any(a <= ord(c) <= b for a, b in cs)])
        if op is C.SUBPATTERN:
            return '(?:%s)' % ''.join(nd(*x) for x in av[3])
        if op is C.BRANCH:
            return '(?:%s)' % '|'.join(''.join(nd(*y) for y in x) for x in av[1])
        if op in (C.MAX_REPEAT, C.MIN_REPEAT):
            return '(?:%s){%d,%s}' % (''.join(nd(*x) for x in av[2]), av[0], '' if av[1] is C.MAXREPEAT else av[1])
        raise Unsupported('regular expression %s' % op)
    return ''.join(nd(*x) for x in core)
