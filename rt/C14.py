"""C14 at run time: random sequences of calls of the list functions, nested in each other, on lists
that are used again and again, against an independent evaluation."""
from yu import *


def show(v):
    if isinstance(v, (list, tuple)):
        return '(' + ' '.join(show(x) for x in v) + ')'
    if isinstance(v, str):
        return 's:' + str(v)
    if isinstance(v, bool):
        return str(v)
    return 'f:%r' % float(v) if isinstance(v, float) else 'i:%d' % v


def sig(*a):
    return '<' + '|'.join(show(x) for x in a) + '>'


def islst(v):
    """A list made by a function is one of the preprocessor's, it can be applied and embedded."""
    return 1 if isinstance(v, LIST) else 0


def value(rng, d):
    """-> ( text, value )"""
    c = rng.randrange(12)
    if c < 6 or d == 0 and c > 8:
        v = rng.choice([0, 1, 1, 2, 3, 7])
        return str(v), v
    if c == 6:
        v = rng.choice([1.0, 2.5, 0.0])
        return repr(v), v
    if c < 9:
        v = rng.choice(['"a"', '"b"', '"1"', "'a'"])
        return v, v
    return lst(rng, d - 1, rng.choice([0, 1, 1, 2]))


def lst(rng, d, n):
    xs = [value(rng, d) for _ in range(n)]
    return '(' + ' '.join(t for t, _ in xs) + ')', [v for _, v in xs]


def same(a, b):
    if isinstance(a, list) or isinstance(b, list):
        return isinstance(a, list) and isinstance(b, list) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, str) or isinstance(b, str):
        return isinstance(a, str) and isinstance(b, str) and a == b
    return a == b


class Prog:
    def __init__(self, rng):
        self.rng = rng
        self.names = {}

    def alist(self, d):
        """An expression whose value is a list -> ( text, value )"""
        rng = self.rng
        c = rng.randrange(11)
        if d == 0 or c < 2:
            if self.names and rng.random() < .8:
                n = rng.choice(sorted(self.names))
                return n, self.names[n]
            return lst(rng, 2, rng.randrange(6))
        t, v = self.alist(d - 1)
        if c == 2:
            return '($car %s)' % t, v[:1]
        if c == 3:
            return '($cdr %s)' % t, v[1:]
        if c == 4:
            return '($reversed %s)' % t, [v[len(v) - 1 - i] for i in range(len(v))]
        if c == 5:
            out = []
            for x in v:
                if not any(same(x, y) for y in out):
                    out.append(x)
            return '($unique %s)' % t, out
        if c in (6, 7):
            k = rng.randrange(1, 4)
            b = [rng.choice([None, 0, 1, 2, 5, -1, -2, -9]) for _ in range(k)]
            if k == 3 and b[2] in (0, None, 5, -9):
                b[2] = rng.choice([-1, 1, 2, -2, None])
            lo, hi, st = (b + [None, None])[:3]
            ix = range(*slice(lo, hi, st).indices(len(v)))
            return '($getslice %s %s)' % (t, ' '.join('(`)' if x is None else str(x) for x in b)), [v[i] for i in ix]
        if c == 8:
            xs = [self.anyval(d - 1) for _ in range(rng.randrange(4) if rng.random() < .9 else rng.randrange(4, 30))]
            return '($list%s)' % ''.join(' ' + x for x, _ in xs), [y for _, y in xs]
        if c == 9:
            t2, v2 = self.alist(d - 1)
            return '($concat %s %s)' % (t, t2), v + v2
        a, b = rng.choice([0, 1, 3]), rng.choice([0, 2, 4])
        return rng.choice([('($range %d)' % b, list(range(b))), ('($range %d %d)' % (a, b), list(range(a, b))),
                           ('($range %d %d 2)' % (a, b), list(range(a, b, 2)))])

    def anyval(self, d):
        rng = self.rng
        c = rng.randrange(8)
        if c < 3:
            return value(rng, 1)
        t, v = self.alist(max(d, 0))
        if c == 3:
            return '($len %s)' % t, len(v)
        if c in (4, 5):
            x = rng.choice(v) if v and rng.random() < .7 else None
            xt, x = (text(x), x) if x is not None else value(rng, 1)
            ks = [i for i, y in enumerate(v) if same(x, y)]
            if c == 4:
                return '($index %s %s)' % (t, xt), ks[0] if ks else -1
            return '($rindex %s %s)' % (t, xt), ks[-1] if ks else -1
        if c == 7 and v and rng.random() < .5:
            i = rng.randrange(-len(v), len(v))
            return '($getitem %s %d)' % (t, i), v[i]
        if c == 7 and all(isinstance(x, (int, float)) for x in v):
            n = 0
            for x in v:
                n += x
            return '($sum %s)' % t, n
        if c == 6:
            x = rng.choice(v) if v and rng.random() < .7 else value(rng, 1)[1]
            return '($islst %s)' % t if 0 else '($int_ ($contains %s %s))' % (t, text(x)), int(any(same(x, y) for y in v))
        return t, v


def text(v):
    if isinstance(v, list):
        return '(' + ' '.join(text(x) for x in v) + ')'
    return repr(v) if isinstance(v, float) else str(v)


def one(r):
    rng = r.rng
    p = Prog(rng)
    src, want = [], ''
    for i in range(rng.randrange(1, 4)):
        n = 'abc'[i]
        t, v = lst(rng, 2, rng.choice([0, 1, 2, 3, 5, 8]) if rng.random() < .9 else rng.randrange(40))
        src.append('($set %s %s)' % (n, t))
        p.names[n] = v
    for _ in range(rng.randrange(1, 7)):
        t, v = p.anyval(2) if rng.random() < .5 else p.alist(2)
        src.append('($sig %s)' % t)
        want += '<%s>' % show(v)
        if isinstance(v, list) and rng.random() < .2:
            n = 'd%d' % len(p.names)
            src.append('($set %s %s)' % (n, t))
            p.names[n] = v
    for n, v in sorted(p.names.items()):
        src.append('($sig %s)' % n)
        want += '<%s>' % show(v)
    src = ''.join(src)
    r.case(src)
    limit(20)
    try:
        shell(src)
        builtin.update(sig=sig)
        got = yueval(yuparse(yushell.input_file))
    except Timeout:
        got = 'timeout'
    except Exception as e:
        got = repr(e)[:300]
    finally:
        unlimit()
    r.check(got == want, 'call', 'the values of the calls, then the lists they were given', text=src, expected=want, result=str(got))


def native(v):
    return LIST(native(x) for x in v) if isinstance(v, list) else STR(v) if isinstance(v, str) else FLOAT(v) if isinstance(v, float) else INT(v)


def direct(r):
    """The functions called as the evaluator calls them, on one list again and again: it is as it was."""
    rng = r.rng
    _, v = lst(rng, 2, rng.randrange(7))
    l = native(v)
    was = [(id(x), show(x)) for x in l]
    log = []
    for _ in range(rng.randrange(1, 5)):
        f = rng.choice(['car', 'cdr', 'reversed', 'unique', 'index', 'rindex', 'getslice', 'list', 'len', 'concat', 'contains'])
        args = [l]
        if f in ('index', 'rindex', 'contains'):
            args.append(native(rng.choice(v) if v and rng.random() < .7 else value(rng, 1)[1]))
        elif f == 'getslice':
            args += [rng.choice([STR(''), INT(0), INT(1), INT(-1)]) for _ in range(rng.randrange(1, 3))]
        elif f == 'concat':
            args.append(native(lst(rng, 1, 2)[1]))
        try:
            yugen.builtin[f](*args)
        except Exception as e:
            log.append((f, repr(e)))
        log.append(f)
        now = [(id(x), show(x)) for x in l]
        if now != was:
            break
    r.case(show(v) + repr(log))
    r.check(now == was, 'argument', 'the list a function is given stays as it was', list=show(v), calls=log, after=show(l))


def body(r):
    r.rule = 'random sequences of calls of the list functions on lists used again; distinct by text'
    while r.left() > 0:
        one(r) if r.rng.random() < .9 else direct(r)


main(body)
