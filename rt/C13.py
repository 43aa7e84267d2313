"""C13 at run time: random lists, loops and subscripts against an independent evaluation;
the evaluated parts log themselves."""
from yu import *

LOG = []
NIL = object()


def hit(n, v):
    LOG.append(int(n))
    return v


def nil(n):
    LOG.append(int(n))
    return None


def empty(n):
    LOG.append(int(n))
    return ''


def odd(x):
    LOG.append(-int(x))
    return x if int(x) % 2 else None


def inc(x):
    LOG.append(1000 + int(x))
    return x + 1


def dup(x):
    LOG.append(2000 + int(x))
    return LIST([x, x])


def total(l):
    LOG.append(3000 + len(l))
    return sum(int(x) for x in l)


KINDS = ['', 0, [], 'a', 0.0, [[]], None, [0], '0', 1]


def pick(n):
    LOG.append(5000 + int(n))
    v = KINDS[int(n) % len(KINDS)]
    return LIST(v) if isinstance(v, list) else v


def same(x):
    LOG.append(4000)
    return x


def sig(*a):
    return '<' + '|'.join(show(x) for x in a) + '>'


def show(v):
    if isinstance(v, (list, tuple)):
        return '(' + ' '.join(show(x) for x in v) + ')'
    return str(v)


class G:
    def __init__(self, rng):
        self.rng, self.k = rng, 0

    def elem(self, d, nested=True):
        """-> ( text, list of values it contributes, log )"""
        rng = self.rng
        self.k += 1
        n = self.k
        c = rng.randrange(12)
        if c < 3:
            return str(n), [n], []
        if c < 5:
            v = rng.randrange(50)
            return '($hit %d %d)' % (n, v), [v], [n]
        if c == 5:
            return '($nil %d)' % n, [], [n]
        if c == 6 and rng.random() < .3:
            return '($empty %d)' % n, [''], [n]
        if c == 6:
            return '"s%d"' % n, ['"s%d"' % n], []
        if c == 7:
            b = rng.randrange(2)
            return '($ ($hit %d 7) ? %d)' % (n, b), [7] if b else [], [n] if b else []
        if c < 10 and d > 0 and nested:
            t, v, l = self.lst(d - 1, rng.randrange(4))
            return t, [v], l
        if d > 0:
            t, v, l = self.lst(d - 1, rng.randrange(4), nested)
            return '*' + t, v, l
        return '*%d' % n, [n], []

    def lst(self, d, n, nested=True):
        ts, vs, log = [], [], []
        for _ in range(n):
            t, v, l = self.elem(d, nested)
            ts.append(t)
            vs += v
            log += l
        if self.rng.random() < .1:
            ts.insert(self.rng.randrange(len(ts) + 1), '()')
            return self.redo(ts, d, n, nested)
        return '(' + self.rng.choice(['', '', ' ']) + ' '.join(ts) + ')', vs, log

    def redo(self, ts, d, n, nested):
        if not nested:
            return self.lst(d, n, nested)
        self.k += 1
        m = self.k
        return '($hit %d (%d ()))' % (m, m), [m, []], [m]

    def nums(self, n):
        """A list of numbers only."""
        ts, vs, log = [], [], []
        for _ in range(n):
            self.k += 1
            c = self.rng.randrange(6)
            v = self.rng.randrange(30)
            if c < 3:
                ts.append(str(v))
                vs.append(v)
            elif c == 3:
                ts.append('($hit %d %d)' % (self.k, v))
                vs.append(v)
                log.append(self.k)
            elif c == 4:
                ts.append('($nil %d)' % self.k)
                log.append(self.k)
            else:
                ts.append('*(%d %d)' % (v, v + 1))
                vs += [v, v + 1]
        return '(' + ' '.join(ts) + ')', vs, log

    def fns(self):
        """Functions of numbers to numbers, a last one to anything: [ ( text, f( v, log ) ) ]"""
        rng = self.rng
        out = []
        for i in range(rng.choice([0, 1, 1, 1, 2, 3])):
            c = rng.randrange(6)
            self.k += 1
            n = self.k
            if c == 0:
                out.append(('inc', lambda v, log: (log.append(1000 + v), v + 1)[1]))
            elif c == 1:
                out.append(('\\x.($inc x)', lambda v, log: (log.append(1000 + v), v + 1)[1]))
            elif c == 2:
                out.append(('\\x.\\y:%d.($hit y ($inc x))' % n, lambda v, log, n=n: (log.append(1000 + v), log.append(n), v + 1)[2]))
            elif c == 3:
                out.append(('\\x.($ x ? x | 3)', lambda v, log: v if v else 3))
            elif c == 4:
                out.append(('\\x.($total ($dup x))', lambda v, log: (log.append(2000 + v), log.append(3002), 2 * v)[2]))
            else:
                out.append(('\\x.($inc { x + 1 })', lambda v, log: (log.append(1001 + v), v + 2)[1]))
        c = rng.randrange(8)
        if c > 5:
            # values that are empty but not nothing
            m = rng.randrange(1, 4)
            def f(v, log, m=m):
                log.append(5000 + v * m)
                return KINDS[v * m % len(KINDS)]
            out.append(('\\x.($pick { int(x) * %d })' % m, f) if rng.random() < .7 else ('\\x.($ ($pick { int(x) * %d }) ? ($eq x x))' % m, f))
        elif out and c == 0:
            out.append(('odd', lambda v, log: (log.append(-v), v if v % 2 else None)[1]))
        elif out and c == 1:
            out.append(('\\x.($odd x)', lambda v, log: (log.append(-v), v if v % 2 else None)[1]))
        elif c == 2:
            out.append(('dup', lambda v, log: (log.append(2000 + v), [v, v])[1]))
        elif c == 3:
            out.append(('\\x.[f($x);]', lambda v, log: 'f%d;' % v))
        elif out and c == 4:
            out += [('dup', lambda v, log: (log.append(2000 + v), [v, v])[1]), (rng.choice(['0', '1']), lambda v, log: v[0])]
        return out


def check(r, key, text, want, log):
    r.case(text)
    del LOG[:]
    limit(20)
    try:
        shell(text)
        builtin.update(hit=hit, nil=nil, empty=empty, odd=odd, inc=inc, dup=dup, total=total, sig=sig, pick=pick, same=same)
        got = yueval(yuparse(yushell.input_file))
    except Timeout:
        got = 'timeout'
    except Exception as e:
        got = repr(e)[:300]
    finally:
        unlimit()
    r.check(got == want, key + ':value', 'the value', text=text, expected=want, result=got)
    r.check(LOG == log, key + ':order', 'the parts evaluated, in order', text=text, expected=log, evaluated=list(LOG), result=got)


def one(r):
    rng = r.rng
    g = G(rng)
    c = rng.randrange(5)
    if c == 0:
        t, v, l = g.lst(rng.randrange(4), rng.randrange(8) if rng.random() < .9 else rng.randrange(60))
        check(r, 'list', '($sig %s)' % t, '<%s>' % show(v), l)
    elif c == 1:
        t, v, l = g.nums(rng.randrange(9) if rng.random() < .9 else rng.randrange(60))
        fs = g.fns()
        log, out = list(l), []
        for x in v:
            for _, f in fs:
                x = f(x, log)
            if x is not None:
                out.append(x)
        sep = rng.choice([' ', '  ', '\n'])
        ft = ''.join(sep + a for a, _ in fs)
        if rng.random() < .3:
            text = '($let xs %s ($sig ($ xs%s)))' % (t, ft)
        elif rng.random() < .2:
            # the functions may be used again
            text = '($let fn %s ($sig ($ %s fn) ($ (1 2) fn)))' % (fs[0][0], t) if len(fs) == 1 and fs[0][0] != '0' else '($sig ($ %s%s))' % (t, ft)
            if 'fn' in text:
                out2 = []
                for x in (1, 2):
                    x = fs[0][1](x, log)
                    if x is not None:
                        out2.append(x)
                return check(r, 'loop', text, '<%s|%s>' % (show(out), show(out2)), log)
        else:
            text = '($sig ($ %s%s))' % (t, ft)
        check(r, 'loop', text, '<%s>' % show(out), log)
    elif c == 4:
        t, v, l = g.lst(2, rng.randrange(8))
        n = rng.randrange(3)
        fs = [('same', lambda x: x), ('\\x.($same x)', lambda x: x), ('\\x.(x x)', lambda x: [x, x]), ('\\x.($list x)', lambda x: [x])]
        fs = [rng.choice(fs) for _ in range(rng.choice([1, 1, 2]))]
        out = []
        log = list(l)
        for x in v:
            for a, f in fs:
                if 'same' in a:
                    log.append(4000)
                x = f(x)
            out.append(x)
        check(r, 'loop over anything', '($sig ($ %s %s))' % (t, ' '.join(a for a, _ in fs)), '<%s>' % show(out), log)
    elif c == 2:
        t, v, l = g.lst(2, rng.randrange(8) if rng.random() < .9 else rng.randrange(60))
        i = rng.randrange(0, len(v) + 3) if rng.random() < .85 else rng.randrange(5000)
        it = rng.choice(['%d', '%d', '%d.0', '($hit 999 %d)', '0x%x']) % i
        ex = v[i] if i < len(v) else None
        check(r, 'subscript', '[($ %s %s)]' % (it, '($sig1 x)' if 0 else t) if ex is None else '($sig ($ %s %s))' % (it, t), '[]' if ex is None else '<%s>' % show(ex),
              ([999] if 'hit 999' in it else []) + l)
    else:
        ts, v, l = [], [], []
        for _ in range(rng.randrange(2, 7) if rng.random() < .9 else rng.randrange(60)):
            a, b, d = g.elem(2)
            ts.append(a)
            v += b
            l += d
        if len(v) < 2:
            return
        i = rng.randrange(0, len(v) + 2) if rng.random() < .85 else rng.randrange(5000)
        ex = v[i] if i < len(v) else None
        check(r, 'subscript of arguments', '[($ %d %s)]' % (i, ' '.join(ts)) if ex is None else '($sig ($ %d %s))' % (i, ' '.join(ts)),
              '[]' if ex is None else '<%s>' % show(ex), l)


def body(r):
    r.rule = 'random lists, loops over lists and subscripts; distinct by text'
    while r.left() > 0:
        one(r)


main(body)
