"""Strings known by a regular expression: the text matched by a pattern, and what the
deleting string functions (replace, strip, ...) make of it.  Everything here is decided
by exploring the product of finite automata, so it holds for texts of any length.

Characters are taken from a finite alphabet of representatives: every ASCII character
stands for itself; the others are grouped by what re and str can tell apart."""
import re
from . import rx as rx_
from .values import *

C = re._constants
ALPHA = [chr(i) for i in range(128)] + ['\u0663', '\u00b2', '\u00e9', '\u2003', '\u2022']


class Prog:
    """Pike program of a pattern (ordered threads)."""

    def __init__(self, pattern, flags=0):
        self.code = []
        tree = rx_.parse(pattern, flags)
        self.flags = tree.state.flags
        self.seq(tree)
        self.emit('match')
        self.cache = {}

    def emit(self, *ins):
        self.code.append(list(ins))
        return len(self.code) - 1

    def seq(self, tree):
        for op, av in tree:
            self.node(op, av)

    def node(self, op, av):
        cs = rx_.charset(op, av, self.flags)
        if cs is not None:
            hi = [r for r in cs if r[1] >= 128]
            exact = {tuple(map(tuple, rx_.negate([])))}
            s = frozenset(c for c in ALPHA if any(a <= ord(c) <= b for a, b in cs))
            # characters outside ASCII are told apart only by categories
            if hi and op is not C.ANY and op is not C.NOT_LITERAL and not (op is C.IN and any(
                    o in (C.CATEGORY, C.NEGATE) for o, a in av)) and op is not C.CATEGORY:
                raise Unsupported('regular expression: characters outside ASCII')
            self.emit('char', s)
        elif op is C.SUBPATTERN:
            self.seq(av[-1])
        elif op is C.BRANCH:
            alts = av[1]
            ends = []
            for i, b in enumerate(alts):
                if i < len(alts) - 1:
                    sp = self.emit('split', None, None)
                    self.code[sp][1] = len(self.code)
                    self.seq(b)
                    ends.append(self.emit('jmp', None))
                    self.code[sp][2] = len(self.code)
                else:
                    self.seq(b)
            for e in ends:
                self.code[e][1] = len(self.code)
        elif op in (C.MAX_REPEAT, C.MIN_REPEAT):
            lo, hi, sub = av
            greedy = op is C.MAX_REPEAT
            for _ in range(lo):
                self.seq(sub)
            if hi is C.MAXREPEAT:
                sp = self.emit('split', None, None)
                self.loop(sp, greedy, sub, True)
            else:
                if hi - lo > 40:
                    raise Unsupported('regular expression: repetition')
                sps = []
                for _ in range(hi - lo):
                    sp = self.emit('split', None, None)
                    self.code[sp][1 if greedy else 2] = len(self.code)
                    self.seq(sub)
                    sps.append(sp)
                for sp in sps:
                    self.code[sp][2 if greedy else 1] = len(self.code)
        elif op is C.AT and av in (C.AT_BEGINNING, C.AT_BEGINNING_STRING):
            self.emit('bos')
        else:
            raise Unsupported('regular expression: %s' % op)

    def loop(self, sp, greedy, sub, inf):
        self.code[sp][1 if greedy else 2] = len(self.code)
        self.seq(sub)
        self.emit('jmp', sp)
        self.code[sp][2 if greedy else 1] = len(self.code)

    def close(self, pcs, bos):
        """Ordered closure."""
        out = []
        seen = set()

        def add(pc):
            if pc in seen:
                return
            seen.add(pc)
            ins = self.code[pc]
            if ins[0] == 'jmp':
                add(ins[1])
            elif ins[0] == 'split':
                add(ins[1])
                add(ins[2])
            elif ins[0] == 'bos':
                if bos:
                    add(pc + 1)
            else:
                out.append(pc)
        for pc in pcs:
            add(pc)
        return tuple(out)

    def start(self):
        return self.close((0,), True)

    def step(self, st, c):
        k = (st, c)
        r = self.cache.get(k)
        if r is None:
            r = self.cache[k] = self.close([pc + 1 for pc in st if self.code[pc][0] == 'char' and c in self.code[pc][1]], False)
        return r

    def accept(self, st):
        return any(self.code[pc][0] == 'match' for pc in st)

    def step_ordered(self, st, c):
        """Threads after a match are cut off."""
        return self.step(self.cut(st), c)

    def cut(self, st):
        out = []
        for pc in st:
            out.append(pc)
            if self.code[pc][0] == 'match':
                break
        return tuple(out)


_progs = {}


def prog(pattern, flags=0):
    k = (pattern, flags)
    if k not in _progs:
        _progs[k] = Prog(pattern, flags)
    return _progs[k]


# ------------------------------------------------------------------ operations
class Erase:
    def __init__(self, s):
        self.s = frozenset(s)

    def init(self):
        return 0

    def step(self, st, c, k):
        return [(0, None if k is None or k in self.s else k)]

    def final(self, st):
        return True


class RStrip:
    def __init__(self, s):
        self.s = frozenset(s)

    def init(self):
        return ('A', True)

    def step(self, st, c, k):
        ph, ok = st
        out = []
        if ph == 'A':
            out.append((('A', ok if k is None else k not in self.s), k))
        if ph == 'B' or ok:
            if k is None or k in self.s:
                out.append((('B', True), None))
        return out

    def final(self, st):
        return st[1]


class LStrip:
    def __init__(self, s):
        self.s = frozenset(s)

    def init(self):
        return 0

    def step(self, st, c, k):
        if st == 0:
            if k is None or k in self.s:
                return [(0, None)]
            return [(1, k)]
        return [(1, k)]

    def final(self, st):
        return True


class Sub:
    """[a:b] with constant non-negative bounds (b may be None)."""
    def __init__(self, a, b):
        self.a, self.b = a, b

    def init(self):
        return 0

    def step(self, st, c, k):
        if k is None:
            return [(st, None)]
        keep = st >= self.a and (self.b is None or st < self.b)
        lim = self.a if self.b is None else self.b
        return [(min(st + 1, lim), k if keep else None)]

    def final(self, st):
        return True


class Map:
    def __init__(self, f):
        self.f = f

    def init(self):
        return 0

    def step(self, st, c, k):
        return [(0, None if k is None else self.f(k))]

    def final(self, st):
        return True


# ------------------------------------------------------------------ predicates
class Lang:
    """The string belongs to the language of a pattern."""
    def __init__(self, pattern, flags=0):
        self.p = prog(pattern, flags)

    def init(self):
        return self.p.start()

    def step(self, st, c):
        return self.p.step(st, c)

    def accept(self, st):
        return self.p.accept(st)


class Prefix:
    """Some prefix of the string belongs to the language."""
    def __init__(self, pattern, flags=0):
        self.p = prog(pattern, flags)

    def init(self):
        s = self.p.start()
        return 'yes' if self.p.accept(s) else s

    def step(self, st, c):
        if st == 'yes':
            return st
        s = self.p.step(st, c)
        return 'yes' if self.p.accept(s) else s

    def accept(self, st):
        return st == 'yes'


class ProperPrefix(Prefix):
    """Some proper prefix belongs to the language."""
    def init(self):
        return (False, self.p.start())

    def step(self, st, c):
        return (st[0] or self.p.accept(st[1]), self.p.step(st[1], c))

    def accept(self, st):
        return st[0]


def lit(s):
    return Lang(re.escape(s))


def starts(s):
    return Prefix(re.escape(s))


class Ends:
    def __init__(self, s):
        self.s = s

    def init(self):
        return ''

    def step(self, st, c):
        return (st + c)[-len(self.s):] if self.s else ''

    def accept(self, st):
        return st == self.s


class All:
    """Not empty, and every character satisfies f."""
    def __init__(self, f):
        self.f = f

    def init(self):
        return 0

    def step(self, st, c):
        return 1 if st != 2 and self.f(c) else 2

    def accept(self, st):
        return st == 1


class Has:
    def __init__(self, s):
        self.s = s

    def init(self):
        return 'yes' if not self.s else ''

    def step(self, st, c):
        if st == 'yes':
            return st
        st = (st + c)[-len(self.s):]
        return 'yes' if st == self.s else st

    def accept(self, st):
        return st == 'yes'


class MinLen:
    def __init__(self, n):
        self.n = n

    def init(self):
        return 0

    def step(self, st, c):
        return min(st + 1, self.n)

    def accept(self, st):
        return st >= self.n


LIMIT = 60000


def search(cons, pair=None):
    """A word w such that, for every (ops, pred, positive) in cons, ops(w) satisfies pred
    (or does not), and, if pair = (ops1, ops2), ops1(w) and ops2(w) differ in some place.
    Returns the word or None."""
    chains = [(tuple(o), p, pos) for o, p, pos in cons]

    def start():
        st = []
        for o, p, pos in chains:
            st.append((tuple(x.init() for x in o), p.init()))
        if pair:
            st.append((tuple(x.init() for x in pair[0]), tuple(x.init() for x in pair[1]), False))
        return tuple(st)

    def run_ops(ops, states, c):
        """All ( states', out )."""
        res = [((), c)]
        for x, s in zip(ops, states):
            new = []
            for acc, k in res:
                for s2, k2 in x.step(s, c, k):
                    new.append((acc + (s2,), k2))
            res = new
        return res

    def steps(st, c):
        outs = [()]
        for (o, p, pos), s in zip(chains, st):
            alts = []
            for s2, k in run_ops(o, s[0], c):
                alts.append((s2, s[1] if k is None else p.step(s[1], k)))
            outs = [x + (a,) for x in outs for a in alts]
        if pair:
            s = st[-1]
            alts = []
            for a, k in run_ops(pair[0], s[0], c):
                for b, k2 in run_ops(pair[1], s[1], c):
                    alts.append((a, b, s[2] or k != k2))
            outs = [x + (a,) for x in outs for a in alts]
        return outs

    def good(st):
        for (o, p, pos), s in zip(chains, st):
            if not all(x.final(y) for x, y in zip(o, s[0])):
                return False
            if p.accept(s[1]) != pos:
                return False
        if pair:
            s = st[-1]
            return s[2] and all(x.final(y) for x, y in zip(pair[0], s[0])) and all(x.final(y) for x, y in zip(pair[1], s[1]))
        return True
    # dead states of the positive languages are pruned by their emptiness
    s0 = start()
    frontier = [(s0, '')]
    seen = {s0}
    while frontier:
        new = []
        for st, w in frontier:
            if good(st):
                return w
            if any(pos and isinstance(p, Lang) and s[1] == () for (o, p, pos), s in zip(chains, st)):
                continue
            done = set()
            for c in ALPHA:
                for s2 in steps(st, c):
                    if s2 not in seen:
                        seen.add(s2)
                        new.append((s2, w + c))
        if len(seen) > LIMIT:
            raise Unsupported('automata too large')
        frontier = new
    return None


def preferred_is_longest(pattern, flags=0):
    """None, or a text on which the match found by re is not the longest one."""
    p = prog(pattern, flags)
    s0 = p.start()
    # ( threads kept by priority, all threads, an accepting state was passed by the cut ones only )
    frontier = [((p.cut(s0), s0), '')]
    seen = {frontier[0][0]}
    while frontier:
        new = []
        for (a, b), w in frontier:
            if p.accept(b) and not p.accept(a):
                return w
            for c in ALPHA:
                s = (p.cut(p.step(a, c)), p.step(b, c))
                if s[1] and s not in seen:
                    seen.add(s)
                    new.append((s, w + c))
        if len(seen) > LIMIT:
            raise Unsupported('automata too large')
        frontier = new
    return None


# ------------------------------------------------------------------ values
class Base:
    """The text matched by a pattern."""
    def __init__(self, rx, view, end):
        self.rx, self.view, self.end = rx, view, end
        self.cons = [((), Lang(rx.pattern, rx.flags), True)]


class RStr(SStr):
    def __init__(self, pieces, base, ops):
        SStr.__init__(self, pieces)
        self.base, self.ops = base, tuple(ops)


def derive(I, s, op):
    return RStr(I.ostr('rx').ps, s.base, s.ops + (op,))


def holds(I, s, pred):
    """Branch on a predicate of s."""
    b = s.base
    t = search(b.cons + [(s.ops, pred, True)])
    f = search(b.cons + [(s.ops, pred, False)])
    if t is None and f is None:
        raise PathEnd()
    if f is None:
        return True
    if t is None:
        return False
    v = I.choose(2) == 0
    b.cons.append((s.ops, pred, v))
    return v


def method(I, s, name, a, kw):
    """A string method of an RStr (NotImplemented: unknown)."""
    k = [I.strval(x) if I.strval(x) is not None else x for x in a]
    if name == 'replace' and len(k) == 2 and k[1] == '' and isinstance(k[0], str) and len(k[0]) == 1:
        return derive(I, s, Erase(k[0]))
    if name == 'replace' and len(k) == 2 and all(isinstance(x, str) and len(x) == 1 for x in k):
        return derive(I, s, Map(lambda c: k[1] if c == k[0] else c))
    if name in ('rstrip', 'lstrip', 'strip') and (not k or k[0] is None or isinstance(k[0], str)):
        S = [c for c in ALPHA if (c in k[0] if k and k[0] is not None else c.isspace())]
        if k and isinstance(k[0], str) and any(ord(c) > 127 for c in k[0]):
            return NotImplemented
        if name == 'rstrip':
            return derive(I, s, RStrip(S))
        if name == 'lstrip':
            return derive(I, s, LStrip(S))
        return derive(I, derive(I, s, LStrip(S)), RStrip(S))
    if name in ('isdigit', 'isalpha', 'isspace', 'isalnum', 'isdecimal'):
        return holds(I, s, All(lambda c: getattr(c, name)()))
    if name == 'startswith' and len(k) == 1 and isinstance(k[0], (str, tuple)):
        ps = (k[0],) if isinstance(k[0], str) else k[0]
        if all(isinstance(p, str) for p in ps):
            return any(holds(I, s, starts(p)) for p in ps)
    if name == 'endswith' and len(k) == 1 and isinstance(k[0], (str, tuple)):
        ps = (k[0],) if isinstance(k[0], str) else k[0]
        if all(isinstance(p, str) for p in ps):
            return any(holds(I, s, Ends(p)) for p in ps)
    if name in ('lower', 'upper'):
        return derive(I, s, Map(lambda c: getattr(c, name)() if len(getattr(c, name)()) == 1 else c))
    if name == '__contains__' and isinstance(k[0], str):
        return holds(I, s, Has(k[0]))
    if name == '__eq__' and isinstance(k[0], str):
        return holds(I, s, lit(k[0]))
    return NotImplemented


def index(I, s, i):
    if isinstance(i, int) and i >= 0:
        if not holds(I, s, MinLen(i + 1)):
            I.throw('IndexError', 'string index out of range')
        return derive(I, s, Sub(i, i + 1))
    return NotImplemented


def slice_(I, s, sl):
    def c(x):
        return x is None or isinstance(x, int) and x >= 0
    if c(sl.start) and c(sl.stop) and sl.step is None:
        return derive(I, s, Sub(sl.start or 0, sl.stop))
    return NotImplemented
