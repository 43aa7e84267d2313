"""C10 at run time: scopes against a model (lists of dictionaries), and programs of nested
scopes against an interpreter of their own."""
from yu import *

NAMES = ['a', 'b', 'c', 'x', 'car', 'add', 'q', 'inc', 'len']


class M:
    """A scope of the model: names in the order they were last bound."""

    def __init__(self, parent=None):
        self.parent, self.items = parent, []

    def set(self, k, v):
        self.items = [e for e in self.items if e[0] != k] + [[k, v]]

    def find(self, k):
        s = self
        while s is not None:
            for e in s.items:
                if e[0] == k:
                    return e
            s = s.parent
        return None


VALUES = [None, 0, '', (), 'v', 5, 'BOUND', 'list']


def val(v):
    return BOUND() if v == 'BOUND' else LIST([INT(1)]) if v == 'list' else v


def scopes(r):
    rng = r.rng
    depth = rng.randint(1, 5)
    real, model = [], []
    env = m = None
    ops = []
    for _ in range(depth):
        loc = [(ATOM(rng.choice(NAMES)), val(rng.choice(VALUES))) for _ in range(rng.randrange(4))]
        env = ENV(env, list(loc))
        m = M(m)
        for k, v in loc:
            m.set(k, v)
        real.append(env)
        model.append(m)
        ops.append(('ENV', [(str(k), repr(v)) for k, v in loc]))

    def compare():
        for i, (e, m) in enumerate(zip(real, model)):
            got = list(e.xlocal())
            r.check([(k, id(v)) for k, v in got] == [(k, id(v)) for k, v in m.items], 'scope', 'the names and values of a scope', history=ops,
                    scope=i, expected=m.items, got=got)
            r.check(set(e.keys()) == set(k for k, _ in m.items) and list(e.order) == [k for k, _ in m.items], 'order', 'the order of a scope', history=ops, got=list(e.order),
                    expected=[k for k, _ in m.items])
            want = next((k for k, v in m.items if isinstance(v, BOUND)), NOT_FOUND)
            u = e.unassigned()
            r.check(u is want or u == want, 'unassigned', 'the first parameter without a value', history=ops, got=u, expected=want)
    compare()
    for _ in range(rng.randrange(8)):
        i = rng.randrange(depth)
        k = ATOM(rng.choice(NAMES))
        op = rng.choice(['lookup', 'lookup', 'update', 'update', 'set', 'del'])
        ops.append((op, i, str(k)))
        f = model[i].find(k)
        if op == 'lookup':
            g = real[i].lookup([], k)
            r.check((g is NOT_FOUND) == (f is None) and (f is None or g is f[1]), 'lookup', 'looking up a name', history=ops, got=g, expected=f)
        elif op == 'update':
            v = val(rng.choice(VALUES))
            g = real[i].update_variable([], k, v)
            r.check((g is NOT_FOUND) == (f is None), 'update', 'the result of an update', history=ops, got=g)
            if f is not None:
                f[1] = v
        elif op == 'set':
            v = val(rng.choice(VALUES))
            real[i][k] = v
            model[i].set(k, v)
        elif any(e[0] == k for e in model[i].items):
            del real[i][k]
            model[i].items = [e for e in model[i].items if e[0] != k]
        compare()
    d = copy.deepcopy(real[-1])
    m = model[-1]
    r.check([k for k, _ in d.xlocal()] == [k for k, _ in m.items] and d is not real[-1], 'copy', 'a copy of a scope', history=ops)
    r.case(repr(ops))


import copy


class P:
    """A program of nested scopes; its meaning computed by the rules of the documentation."""

    def __init__(self, rng):
        self.rng, self.left = rng, 12

    def block(self, env, d, lam):
        out, want = [], []
        env = M(env)
        for _ in range(self.rng.randint(1, 4)):
            self.left -= 1
            if self.left <= 0:
                break
            c = self.rng.randrange(10)
            n = self.rng.choice(NAMES[:6])
            f = env.find(n)
            if c < 3:
                if f is None and n in ('car', 'add'):
                    continue
                out.append('($ %s);' % n if self.rng.random() < .5 else '($%s);' % n)
                if f is None:
                    want.append(n + ';')
                else:
                    want.append('%s;' % ('' if f[1] is None else f[1]))
            elif c < 5:
                f = env.find(n)
                if f is None or f[1] is None:
                    continue
                fn, g = self.rng.choice([('inc', lambda v: v + 1), ('dec', lambda v: v - 1), ('', None), ('\\p.{ p * 2 }', lambda v: v * 2)])
                if env.find(fn) is not None:
                    continue
                out.append('($emit %s%s);' % (n, ' ' + fn if fn else ''))
                want.append('%s;' % f[1])
                if g:
                    f[1] = g(f[1])
            elif c < 6 and not lam:     # set: to the end of the block
                v, w = self.value(env, n)
                out.append('($set %s %s)' % (n, v))
                env = M(env)
                env.set(n, w)
            elif d > 0 and c < 8:
                v, w = self.value(env, n) if not lam else self.const()
                e = M(env)
                e.set(n, w)
                t, x = self.block(e, d - 1, lam)
                out.append('($let %s %s ]%s[)' % (n, v, t))
                want.append(x)
            elif d > 0 and c < 9 and not lam:
                v, w = self.const()
                e = M(env)
                e.set(n, w)
                t, x = self.block(e, d - 1, True)
                out.append('($ \\%s.[%s] %s)' % (n, t, v))
                want.append(x)
            elif not lam:
                xs = self.rng.sample(NAMES[:6], 2)
                vs = [self.value(env, *xs) for _ in xs]
                e = M(env)
                out.append('($set (%s) (%s))' % (' '.join(xs), ' '.join(v for v, _ in vs)))
                env = M(env)
                for a, (_, w) in zip(xs, vs):
                    env.set(a, w)
        return ''.join(out), ''.join(want)

    def const(self):
        k = self.rng.choice([0, 1, 7])
        return str(k), k

    def value(self, env, *bound):
        """A constant or the value of another name (in a binding its own names are not bound yet)."""
        if self.rng.random() < .3:
            n = self.rng.choice(NAMES[:4])
            if n in bound:
                return self.const()
            f = env.find(n)
            if f is not None and f[1] is not None:
                return n, f[1]
        return self.const()


def program(r):
    p = P(r.rng)
    t, want = p.block(None, 3, False)
    r.case(t)
    try:
        got = translate(t).strip()
    except Exception as e:
        got = e
    r.check(got == want, 'program', 'the values of the names of a program', text=t, expected=want, result=got)


FIXED = [
    ('($let x 1 ($let x 2 ($ x)))', '2'), ('($let x 1 ]($let x 2 ($ x))($x)[)', '21'), ('($let x ($) ($ "<" x ">"))', None),
    ('($let x 5 ($let x () ]<($x)>[))', '<>'), ('($set x 5)($let x () ]<($x)>[)', '<>'),
    ('($set car 5)($car)', '5'), ('($let add \\a.\\b.[7] ($add 1 2))', '7'), ('($ \\len.($ len) 3)', '3'), ('($macro len (x) 9($x))($len 1)', '91'),
    ('($let x 1 ]($emit x inc)($emit x inc)($x)[)', '123'), ('($let x 1 ]($let x 5 ]($emit x inc)($x)[)($x)[)', '561'),
    ('($let x 1 ]($let y 5 ]($emit x inc)($y)[)($x)[)', '152'), ('($let l (1 2 3) ]($emit l)($emit l)<($l)>[)', '12<3>'),
    ('($let l () ]<($emit l)>[)', '<>'), ('($set i 0)($emit i inc)($emit i inc)($emit i)($i)', '0122'),
    ('($set i 0)($set i 7)($emit i inc)($i)', '78'),     ('($set l (1 2))($let m l ]($emit m)[)($l)', '112'), ('($set l (1 2))($set m l)($emit m)($emit m)($l)($m)', '1212'),
    ('($emit undefined-name inc)', Exception), ('($emit undefined inc)', Exception), ('($let x 0 ($let x x ($ x)))', None),
    ('($set (a b c d e f g h i j) (1 2 3))($a)($b)($c)<($d)($h)($j)>', '123<>'), ('($set h 9)($set j 8)($set (a b c d e f g h i j) (1 2 3))<($h)($i)($j)>', '<>'),
    ('($let (a b c d e f g h i j k l) (1 2 3 4 5 6 7 8 9 10 11 12) ]($a)($b)($h)($i)($j)($k)($l)[)', '1289101112'),
    ('($let (a b) (1 2) ]($a)($b)[)', '12'), ('($set (a b) (1 2))($b)($a)', '21'), ('($let x "" ]<($unq x)>[)', '<>'),
    ('($set a 1)($ \\a.\\b.[($a)($b)] 5 6)($a)', '561'), ('($set a 1)($ \\b.\\a.[($a)($b)] 5 6)($a)', '651'),
    ('($set inc dec)($let x 3 ]($emit x inc)($x)[)', '32'), ('($set i 1)($ (7 8) \\x.]($x)($emit i inc)[)($i)', None),
]


def body(r):
    r.rule = 'histories of operations on chains of scopes and random programs of nested scopes; distinct by history or text'
    for t, want in FIXED:
        r.case(t)
        try:
            got = translate(t).strip()
        except Exception as e:
            got = e
        if want is None:
            continue
        if want is Exception:
            r.check(isinstance(got, Exception), 'fixed:' + t, 'no error', text=t, result=got)
        else:
            r.check(got == want, 'fixed:' + t, 'the values of the names of a program', text=t, expected=want, result=got)
    while r.left() > 0:
        scopes(r)
        program(r)


main(body)
