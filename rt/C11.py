"""C11 at run time: random parameter lists and argument lists, in lambdas, macros and
partial applications, against an independent binding."""
from yu import *

MISS = object()


def sig(*a):
    return '<' + '|'.join(show(x) for x in a) + '>'


def show(v):
    if isinstance(v, (list, tuple)):
        return '(' + ' '.join(show(x) for x in v) + ')'
    return str(v)


def value(rng, d=1):
    k = rng.randrange(8)
    if k < 5:
        n = rng.randrange(100)
        return str(n), n
    if k == 5:
        return '"s%d"' % rng.randrange(10), None
    if k == 6 and d:
        xs = [value(rng, d - 1) for _ in range(rng.randrange(4))]
        return '(' + ' '.join(x[0] for x in xs) + ')', [x[1] for x in xs]
    n = rng.randrange(1, 50)
    return '($add %d %d)' % (n, 50), n + 50


def gen_args(rng, names, n, wrong):
    """-> text items, named, anonymous; in a random order of the two sorts."""
    named, anon, items = [], [], []
    names = list(names)
    for _ in range(n):
        t, v = value(rng, 0)
        v = t if t.startswith('"') else v
        if names and rng.random() < .35:
            x = names.pop(rng.randrange(len(names)))     # a name twice: the value is not defined
            named.append((x, v))
            items.append('\\%s %s' % (x, t))
        elif rng.random() < .12:
            k = rng.randrange(4)
            xs = [value(rng, 0) for _ in range(k)]
            anon += [x[0] if x[0].startswith('"') else x[1] for x in xs]
            items.append('*(' + ' '.join(x[0] for x in xs) + ')')
        elif rng.random() < .15:
            k = rng.randrange(4)
            xs = [value(rng, 0) for _ in range(k)]
            anon.append([x[0] if x[0].startswith('"') else x[1] for x in xs])
            items.append('(' + ' '.join(x[0] for x in xs) + ')')
        else:
            anon.append(v)
            items.append(t)
    if wrong:
        at = rng.randrange(len(items) + 1)
        named.insert(sum(x[0] == '\\' for x in items[:at]), ('nope', 1))
        items.insert(at, '\\nope 1')
    return items, named, anon


def ev(text):
    shell(text)
    builtin.update(sig=sig)
    return yueval(yuparse(yushell.input_file))


def case(r, text, want):
    r.case(text)
    limit(20)
    try:
        got = ev(text)
    except Timeout:
        got = 'timeout'
    except TypeError as e:
        got = ('error', str(e))
    except Exception as e:
        got = repr(e)[:300]
    finally:
        unlimit()
    if want == 'error':
        r.check(isinstance(got, tuple) and 'has no parameter "nope"' in got[1], 'unknown name', 'a named argument without such a parameter', text=text, result=got)
    elif want is None:
        s = repr(got)
        r.check(not isinstance(got, (str, tuple)) and ('L_CLOSURE(' in s or 'M_CLOSURE(' in s), 'lacking', 'an application that lacks arguments stays a function',
                text=text, result=s)
    else:
        r.check(got == want, 'binding', 'the arguments of an application', text=text, expected=want, result=got)


def one(r):
    rng = r.rng
    macro = rng.random() < .25
    m = rng.randrange(1, 6) if rng.random() < .92 else rng.randrange(6, 24)
    names = ['p%d' % i for i in range(m)]
    rng.shuffle(names)
    params, ptext = [], ''
    for n in names:
        d = MISS
        if not macro and rng.random() < .3:
            t, v = value(rng, 0)
            d = t if t.startswith('"') else v
            ptext += '\\%s:%s.' % (n, t) + rng.choice(['', '', ' '])
        else:
            ptext += '\\%s.' % n + rng.choice(['', '', ' '])
        params.append((n, d))
    rest = not macro and rng.random() < .25
    if rest:
        params.append(('...', MISS))
        ptext += '\\...'
    order = list(names)
    rng.shuffle(order)
    if rng.random() < .2:
        order.append(rng.choice(order))
    wrong = rng.random() < .08
    parts = rng.choice([1, 1, 1, 2, 3])
    k = rng.randrange(0, m + 3) if rng.random() < .9 else rng.randrange(60)
    stages, left = [], k
    # every application but the last one must lack arguments, or its result is not a function
    state = {}
    for i in range(parts):
        n = left if i == parts - 1 else rng.randrange(left + 1)
        left -= n
        st = gen_args(rng, [x for x in names if x not in state], n, wrong and i == 0)
        stages.append(st)
        res = bind(params, state, st[1], st[2])
        if res is not None:
            break
        # what is bound so far
        state = assign(params, state, st[1], st[2])
    body = order + (['__va_args__'] if rest else [])
    names_of = order + (['...'] if rest else [])
    if macro:
        text = '($macro f (%s) ($sig %s))' % (' '.join(names), ' '.join('($%s)' % x for x in body))
        head = 'f'
    else:
        lam = ptext + '($sig %s)' % ' '.join(body)
        how = rng.randrange(4)
        text, head = '', lam
        if how == 0:
            text, head = '($set f %s)' % lam, 'f'
    app = head
    for items, _, _ in stages:
        app = '($ %s%s)' % (app, ''.join(' ' + x for x in items)) if app[0] in '(\\' else '($%s%s)' % (app, ''.join(' ' + x for x in items))
    if not macro and head is not lam and rng.random() < .2:
        text, app = '', '($let f %s %s)' % (lam, app)
    want = res
    if isinstance(res, dict):
        want = '<' + '|'.join(show(res[x]) for x in names_of) + '>'
    case(r, text + app, want)


def assign(params, state, named, anon):
    s = dict(state)
    for n, v in named:
        if set(s) >= set(n for n, _ in params):
            break
        s[n] = v
    anon = list(anon)
    for n, d in params:
        if n in s or not anon:
            continue
        if n == '...':
            s[n] = anon
            anon = []
        else:
            s[n] = anon.pop(0)
    # the defaults of the leading parameters are taken at once
    for n, d in params:
        if n in s:
            continue
        if d is MISS:
            break
        s[n] = d
    return s


def bind(params, state, named, anon):
    names = [n for n, _ in params]
    seen = set(state)
    for n, v in named:
        if seen >= set(names):
            break                       # what is left applies to the result
        if n not in names:
            return 'error'
        seen.add(n)
    s = assign(params, state, named, anon)
    for n, d in params:
        if n not in s:
            if d is MISS:
                return None
            s[n] = d
    return s


FIXED = [
    ('($let k 5 ($ \\a:k.($sig a)))', '<5>'),
    ('($let k 5 ($ \\k.\\a:k.($sig a k) 1))', '<5|1>'),
    ('($ \\param..\\func.\\val.($func val) ($upper &param) "late bound param")', '"LATE BOUND PARAM"'),
    ('($ \\p..\\func.($func 5) ($add &p 1))', '6'),
    ('($ \\p..\\q..\\func.($func 5 7) ($sub &p &q))', '-2'),
    ('($ \\p..\\func.\\p.($func p) ($add &p 1) 9)', '10'),
    ('($ \\a.\\b.($sig a b) 1 2 3 4)', '<1|2>'),
    ('($set f \\a.\\b.($sig a b))($f 1 2)($f 3 4)($f \\b 5 6)', '<1|2><3|4><6|5>'),
    ('($set f \\a.\\b:9.($sig a b))($f 1 2)($f 3)($f 4)', '<1|2><3|9><4|9>'),
    ('($set f \\a.\\b.($sig a b))($set g ($f 1))($g 2)($g 3)($f 5 6)', '<1|2><1|3><5|6>'),
    ('($set f \\a.($sig a))($set g \\a.($f ($add a 1)))($g 2)', '<3>'),
    ('($set ps (a b))($set f \\(ps).($sig a b))($f 1 2)', '<1|2>'),
    ('($macro m (a b) ($sig ($b) ($a)))($m \\b 1 2)', '<1|2>'),
]


def body(r):
    r.rule = 'fixed forms, then random signatures and applications of lambdas and macros, at once and in parts; distinct by text'
    for t, v in FIXED:
        r.case(t)
        try:
            got = ev(t)
        except Exception as e:
            got = e
        if v is not None:
            r.check(got == v, 'fixed:' + t[:20], 'the arguments of an application', text=t, expected=v, result=got)
    while r.left() > 0:
        one(r)


main(body)
