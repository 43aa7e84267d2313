"""C12 at run time: conditionals in every position, with an independent interpreter of the
conditionals; the evaluated parts log themselves."""
from yu import *

LOG = []


def hit(n, v):
    LOG.append(int(n))
    return v


def boom(n):
    LOG.append(int(n))
    raise ValueError('boom')


class Err(Exception):
    pass


class G:
    """A random expression: text and meaning."""

    def __init__(self, rng):
        self.rng, self.k = rng, 0

    def num(self):
        self.k += 1
        return self.k

    def former(self, env, d, total):
        """-> ( text, f( log, env ) -> value )"""
        c = self.rng.randrange(12)
        if c < 3 or d <= 0:
            n, v = self.num(), self.rng.choice([0, 0, 1, 7, '"s"', '()', '(3)', '0.0', '2.5'])
            if self.rng.random() < .12:
                def f(log, e, n=n):
                    log.append(n)
                    raise Err()
                return '($boom %d)' % n, f
            val = {'()': (), '(3)': (3,), '0.0': 0.0, '2.5': 2.5}.get(v, v)      # a text keeps its quotes

            def f(log, e, n=n, val=val):
                log.append(n)
                return val
            return '($hit %d %s)' % (n, v), f
        if c == 3:
            v = self.rng.choice([0, 1, 5])
            return str(v), lambda log, e, v=v: v
        if c < 6 and env:
            x = self.rng.choice(env)
            return x, lambda log, e, x=x: e[x]
        if c < 9:
            t, f = self.form(env, d - 1, total)
            return '($ %s)' % t, f
        if c == 9:                      # let
            x = 'v%d' % self.num()
            a, fa = self.former(env, d - 1, True)
            b, fb = self.form(env + [x], d - 1, total)

            def f(log, e):
                v = fa(log, e)
                return fb(log, dict(e, **{x: v}))
            return '($let %s %s ($ %s))' % (x, a, b), f
        if c == 10 and not any(x[0] == 'p' for x in env):       # application of a function
            # a condition on a later parameter is undecided at first: see UNDECIDED
            m = self.rng.randint(1, 3)
            xs = ['p%d' % self.num() for _ in range(m)]
            args = [self.former(env, d - 1, True) for _ in xs]
            b, fb = self.cond(xs if m == 1 else xs[:1], d - 1, total)
            if self.rng.random() < .5:
                b = '\\\\'[:1] + '.\\'.join(xs) + '.' + '($ %s)' % b
                t = '($ %s %s)' % (b, ' '.join(a for a, _ in args))
            else:
                t = '($let fn%d %s ($fn%d %s))' % (self.k, '\\' + '.\\'.join(xs) + '.($ %s)' % b, self.k, ' '.join(a for a, _ in args))

            def f(log, e):
                vs = [g(log, e) for _, g in args]
                return fb(log, dict(zip(xs, vs)))
            return t, f
        t, f = self.form(env, d - 1, total)         # infix condition
        n = self.rng.choice([0, 1])
        return '{ %d }' % n, lambda log, e, n=n: n

    def cond(self, env, d, total):
        a, fa = self.former(env, d - 1, total)
        c, fc = self.former(env, d - 1, True)
        if env and self.rng.random() < .6:
            x = self.rng.choice(env)
            c, fc = x, lambda log, e: e[x]
        gap = self.rng.choice(['', ' ', '  ', '\n'])
        if not total and self.rng.random() < .3:
            def f(log, e):
                return fa(log, e) if fc(log, e) else None
            return '%s ?%s%s' % (a, gap, c), f
        b, fb = self.form(env, d - 1, total)

        def f(log, e):
            return fa(log, e) if fc(log, e) else fb(log, e)
        return '%s ?%s%s %s| %s' % (a, gap, c, gap, b), f

    def form(self, env, d, total):
        if self.rng.random() < .8 and d > 0:
            return self.cond(env, d, total)
        return self.former(env, d, total)


def flat(v):
    if v is None:
        return ''
    if isinstance(v, (list, tuple)):
        return ''.join(flat(x) for x in v)
    return str(v)


def run(r, text, f, what='cond'):
    r.case(text)
    del LOG[:]
    want = []
    try:
        v = flat(f(want, {}))
    except Err:
        v = Err
    try:
        shell(text)
        builtin.update(hit=hit, boom=boom)
        got = yueval(yuparse(yushell.input_file))
        got = str(got)
    except Exception as e:
        got = Err if 'boom' in str(e) else e
    if LOG != want and ('p' in text and v is not Err):
        # parts of the body of a function that depend on no parameter may be evaluated earlier
        r.check(sorted(LOG) == sorted(want), 'parts', 'the parts of a conditional that are evaluated', text=text, expected=want, evaluated=list(LOG), result=got)
    elif 'p' not in text:
        r.check(LOG == want, 'trace', 'the parts of a conditional that are evaluated, and their order', text=text, expected=want, evaluated=list(LOG), result=got)
    r.check(got == v, 'value', 'the value of a conditional', text=text, expected=v, result=got)


# alternatives of a conditional on a parameter that is not the first are evaluated before the condition is decided
UNDECIDED = [('($ \\p.\\q.($ ($hit 1 1) ? q | ($hit 2 5)) 7 0)', '5', [2]), ('($ \\p.\\q.($ ($boom 1) ? q | 5) 7 0)', '5', [])]

FIXED = [
    ('($ 1 ? ($hit 2 0) | 2 ? ($hit 3 1) | 3)', '2', [2, 3]),
    ('($ 1 ? ($hit 2 0) | ($hit 1 2) ? ($hit 3 0) | ($hit 4 3))', '3', [2, 3, 4]),
    ('($ ($boom 1) ? ($hit 2 0) | ($hit 3 7))', '7', [2, 3]),
    ('($ ($hit 1 7) ? ($hit 2 1) | ($boom 3))', '7', [2, 1]),
    ('($ ($boom 1) ? ($hit 2 0))', '', [2]),
    ('($set if \\cond.\\then:[].\\else:[].($ then ? cond | else))($if ($hit 1 0) [($hit 2 8)] [($hit 3 9)])', '9', None),
    ('($macro m (c x) ($ ($hit 1 ($x)) ? ($c) | ($hit 2 ($x))))($m 0 7)', '7', [2]),
    ('($macro m (c x) ($ ($hit 1 ($x)) ? ($c) | ($hit 2 ($x))))($m 1 7)', '7', [1]),
    ('($ (1 2) \\x.($ ($hit x x) ? { x > 1 } | 0))', '02', [2]),
    ('($set f \\n.($ { n - 0 } ? { n == 0 } | ($f { n - 1 })))($f 3)', '0', []),
    ('($set f \\n.($ ($hit 0 1) ? { n == 0 } | ($mul n ($f { n - 1 }))))($f 5)', '120', [0]),
    ('($set f \\c.\\x.($ ($boom 5) ? c | ($hit 6 x)))($f 0 4)($f 0 5)', '45', [6, 6]),
    ('($set f \\c:0.($ ($boom 5) ? c | ($hit 6 3)))($f)', '3', [6]),
    ('($set f \\...(($ ($hit 1 4) ? __va_args__ | ($hit 2 3))))($f 0)', '4', [1]),
    ('($ "a" ? ($isatom foo) | "b")', '"a"', []),
    ('($ ]\na\n[ ? ($hit 1 1) | ]\n($hit 2 7)\n[)', 'a', [1]),
    ('($ ]\n($hit 3 7)\n[ ? ($hit 1 0) | ]\nb\n[)', 'b', [1]),
]


def body(r):
    r.rule = 'fixed forms, then random nests of conditionals in lets, applications and lists; distinct by text'
    for t, v, log in FIXED:
        r.case(t)
        del LOG[:]
        try:
            shell(t)
            builtin.update(hit=hit, boom=boom)
            got = str(yueval(yuparse(yushell.input_file))).strip()
        except Exception as e:
            got = e
        r.check(got == v, 'fixed:value:' + t[:12], 'the value of a conditional', text=t, expected=v, result=got)
        if log is not None:
            r.check(LOG == log, 'fixed:trace:' + t[:12], 'the parts of a conditional that are evaluated', text=t, expected=log, evaluated=list(LOG))
    for t, v, log in UNDECIDED:
        r.case(t)
        del LOG[:]
        try:
            shell(t)
            builtin.update(hit=hit, boom=boom)
            got = str(yueval(yuparse(yushell.input_file))).strip()
        except Exception as e:
            got = e
        r.check(got == v and LOG == log, 'undecided:' + t, 'the alternative that is not chosen is evaluated before the condition is decided', text=t, expected=v, result=got, evaluated=list(LOG))
    while r.left() > 0:
        g = G(r.rng)
        t, f = g.cond([], r.rng.randint(1, 4), False)
        run(r, '($ %s)' % t, f)


main(body)
