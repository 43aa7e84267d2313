#!/usr/bin/env python3-vt
"""The verifier against Python: small functions are executed symbolically on inputs of unknown
form that are then assumed to be a given value; what Python computes for that value must be among
the possible results (soundness).  Also counted: how often it is the only one (precision), and how
often the verifier declines (Unsupported).

    selftest.py [seconds] [seed]        exit 1 if a result of Python is excluded
"""
import os, random, sys, tempfile, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import z3
from pyvc.engine import *
from pyvc.values import *

CH = ['a', 'b', ' ', '\n', '.', '\t', '(', 'A', '\r']


def strs(rng):
    return repr(''.join(rng.choice(CH) for _ in range(rng.choice([0, 1, 1, 1, 2]))))


def num(rng):
    return rng.choice(['i', 'j', '0', '1', '-1', '2', 'len( t )', 'i + 1', '-i'])


def sexpr(rng, d=2):
    """an expression that is a text"""
    c = rng.randrange(16)
    if d == 0 or c < 3:
        return 't'
    s = lambda: sexpr(rng, d - 1)
    if c == 3: return '%s[%s:]' % (s(), num(rng))
    if c == 4: return '%s[:%s]' % (s(), num(rng))
    if c == 5: return '%s[%s:%s]' % (s(), num(rng), num(rng))
    if c == 6: return '(%s + %s)' % (s(), s())
    if c == 7: return '%s.%s(%s)' % (s(), rng.choice(['strip', 'lstrip', 'rstrip']), rng.choice(['', '', strs(rng)]))
    if c == 8: return '%s.replace(%s, %s)' % (s(), strs(rng), strs(rng)) if rng.random() < .8 else '%s.replace(%s, %s, 1)' % (s(), strs(rng), strs(rng))
    if c == 9: return '%s[%s]' % (s(), num(rng))
    if c == 10: return '%s.join(%s)' % (strs(rng), lexpr(rng, d - 1))
    if c == 11: return '(%s if %s else %s)' % (s(), bexpr(rng, d - 1), s())
    if c == 12: return '%s.%s()' % (s(), rng.choice(['lower', 'upper']))
    if c == 13: return '( %s or %s )' % (s(), s())
    if c == 14: return '%s.partition(%s)[%d]' % (s(), strs(rng), rng.randrange(3))
    return "('%%s|%%d' %% (%s, %s))" % (s(), iexpr(rng, d - 1))


def lexpr(rng, d=1):
    """a list of texts"""
    c = rng.randrange(5)
    s = lambda: sexpr(rng, d)
    if c == 0: return '[%s, %s]' % (s(), s())
    if c == 1: return '%s.split(%s)' % (s(), rng.choice(["'\\n'", "'.'", "' '", "'\\n', 1", '']))
    if c == 2: return '[x + %s for x in [%s, %s]]' % (strs(rng), s(), s())
    if c == 3: return '[%s] + [%s]' % (s(), s())
    return '[%s, %s, %s][%s:]' % (s(), s(), s(), rng.choice(['1', '-1', 'i']))


def iexpr(rng, d=2):
    c = rng.randrange(14)
    s = lambda: sexpr(rng, d - 1) if d else 't'
    if d == 0 or c < 2: return num(rng)
    if c == 2: return '%s.find(%s)' % (s(), strs(rng))
    if c == 3: return '%s.find(%s, %s)' % (s(), strs(rng), num(rng))
    if c == 4: return '%s.rfind(%s)' % (s(), strs(rng))
    if c == 5: return 'len(%s)' % s()
    if c == 6: return '%s.count(%s)' % (s(), strs(rng))
    if c == 7: return '(%s %s %s)' % (iexpr(rng, d - 1), rng.choice(['+', '-', '*']), iexpr(rng, d - 1))
    if c == 8: return '(%s // %s)' % (iexpr(rng, d - 1), rng.choice(['2', '3', '-2', 'i']))
    if c == 9: return '(%s %% %s)' % (iexpr(rng, d - 1), rng.choice(['2', '3', '-2', 'i']))
    if c == 10: return '%s.index(%s)' % (s(), strs(rng))
    if c == 11: return '%s(%s, %s)' % (rng.choice(['min', 'max']), iexpr(rng, d - 1), iexpr(rng, d - 1))
    if c == 12: return 'len(%s)' % lexpr(rng, d - 1)
    return 'ord(%s)' % s()


def bexpr(rng, d=2):
    c = rng.randrange(13)
    s = lambda: sexpr(rng, d - 1) if d else 't'
    if c == 0: return '(%s in %s)' % (strs(rng), s())
    if c == 1: return '(%s == %s)' % (s(), rng.choice([s(), strs(rng)]))
    if c == 2: return '%s.startswith(%s)' % (s(), strs(rng))
    if c == 3: return '%s.endswith(%s)' % (s(), strs(rng))
    if c == 4: return '(%s < %s)' % (num(rng), num(rng))
    if c == 5: return 'bool(%s)' % s()
    if c == 6: return '(not %s)' % s()
    if c == 7 and d: return '(%s %s %s)' % (bexpr(rng, d - 1), rng.choice(['and', 'or']), bexpr(rng, d - 1))
    if c == 8: return '(%s in %s)' % (s(), lexpr(rng, max(0, d - 1)))
    if c == 9: return '(%s %s %s)' % (iexpr(rng, max(0, d - 1)), rng.choice(['<', '<=', '==', '!=', '>']), iexpr(rng, max(0, d - 1)))
    if c == 10: return '%s.isdigit()' % s()
    if c == 11: return '(%s != %s)' % (s(), s())
    return 'isinstance(%s, str)' % s()


BODIES = [
    '''    r = 0
    for c in %(s)s:
        if c == %(k)s:
            r += 1
        elif r > 2:
            break
    else:
        r += 10
    return r''',
    '''    n = 0
    while n < len( t ) and t[ n ] != %(k1)s:
        n += 1
    return t[ :n ], %(i)s''',
    '''    out = []
    for n, c in enumerate( %(s)s ):
        if n %% 2:
            continue
        out.append( c )
    return %(k)s.join( out )''',
    '''    try:
        x = %(i)s
        y = %(s)s
    except ( IndexError, ValueError ):
        return 'E'
    finally:
        i = 0
    return y, x, i''',
    '''    d = { 'a': %(i)s }
    if %(b)s:
        d[ %(k)s ] = 7
    return d.get( 'a', 3 ), d.get( %(k)s ), len( d )''',
    '''    def g( x, y = 2, *z ):
        return ( x, y, len( z ))
    return g( %(i)s ), g( 1, %(i)s ), g( 1, 2, *%(l)s )''',
    '''    l = %(l)s
    l.insert( 0, 'z' )
    l.append( %(s)s )
    x = l.pop()
    l.reverse()
    return l, x''',
    '''    l = %(l)s
    m = l
    l += [ 'q' ]
    m = m + [ 'p' ]
    del l[ 0 ]
    return l, m, 'q' in m''',
    '''    return [ x for x in %(l)s if x ], sorted( [ i, j ] ), any( x == 'a' for x in %(l)s ), all( %(l)s )''',
    '''    a, b = %(s)s, %(i)s
    a, b = b, a
    return a, b, ( a is None )''',
    '''    x = None
    for n in range( i, 3 ):
        x = n if x is None else x + n
    return x''',
    '''    lines = %(s)s.split( '\\n' )
    total = 0
    for ln in lines:
        total += len( ln ) + 1
    return total, len( lines ), lines[ -1 ]''',
    '    return %(s)s', '    return %(i)s', '    return %(b)s', '    return %(l)s', '    return %(s)s, %(i)s', '    return %(b)s, %(b)s',
]


def program(rng):
    b = rng.choice(BODIES) if rng.random() < .5 else rng.choice(BODIES[-6:])
    return 'def f( t, i, j ):\n' + b % {'s': sexpr(rng), 'i': iexpr(rng), 'b': bexpr(rng), 'l': lexpr(rng), 'k': strs(rng), 'k1': repr(rng.choice(CH))} + '\n'


class Timeout(Exception):
    pass


def value(I, form, x, name):
    """A value of the form that is assumed to be x."""
    if isinstance(x, int):
        v = I.fint(name)
        I.assume(v.t == x)
        return v
    if form == 'view':
        T = Text('selftest ' + name)
        a = I.fint('a').t
        I.assume(z3.And(a >= 0, a + len(x) <= T.n))
        for k, c in enumerate(x):
            I.assume(z3.Select(T.arr, a + k) == ord(c))
        # characters around are anything
        return SStr([View(T, a, z3.simplify(a + len(x)))])
    if form == 'open view':
        T = Text('selftest ' + name)
        a, b = I.fint('a').t, I.fint('b').t
        I.assume(z3.And(a >= 0, b == a + len(x), b <= T.n))
        for k, c in enumerate(x):
            I.assume(z3.Select(T.arr, a + k) == ord(c))
        return SStr([View(T, a, b)])
    if form == 'opaque':
        s = I.ostr(name)
        I.assume(s.ps[0].n == len(x))
        I.assume(s.ps[0].u == I.box(x))
        return s
    if form == 'pieces':
        k = len(x) // 2
        return I.concat(value(I, 'open view', x[:k], name), value(I, 'view', x[k:], name + "'"))
    return x


def agree(I, v, x):
    """-> formula or bool: v can be x (structurally)"""
    if isinstance(x, (list, tuple)):
        if isinstance(v, tuple):
            items = list(v)
            if not isinstance(x, tuple) or len(items) != len(x):
                return False
        else:
            if isinstance(x, tuple) or not isinstance(v, Obj):
                return False
            n = I.it(I.list_len(v))
            out = [n == len(x)]
            I.assume(n == len(x))
            items = [I.list_get(v, k) for k in range(len(x))]
        return z3.And([z3.BoolVal(True)] + [I.bt(I.mkbool(a) if not isinstance(a, (bool, SBool)) else a) for a in (agree(I, a, b) for a, b in zip(items, x))])
    if x is None:
        return v is None
    if isinstance(x, str) and not isinstance(v, Sym):
        if I.strval(v) is None:
            return False
    return I.bt(I.eq(v, x))


def main():
    budget = float(sys.argv[1]) if len(sys.argv) > 1 else 60
    seed = int(sys.argv[2]) if len(sys.argv) > 2 else 1
    rng = random.Random(seed)
    end = time.time() + budget
    tmp = tempfile.mkdtemp()
    os.symlink(os.environ.get('VERIF_REPO', '/repo') + '/pp', os.path.join(tmp, 'pp'))
    n = un = exact = bad = 0
    why = {}
    while time.time() < end:
        src = program(rng)
        t = ''.join(rng.choice(CH[:6] if rng.random() < .8 else CH) for _ in range(rng.randrange(6)))
        i, j = rng.randrange(-3, 7), rng.randrange(-3, 7)
        g = {}
        try:
            exec(src, g)
        except SyntaxError:
            continue
        try:
            want = ('value', g['f'](t, i, j))
        except Exception as e:
            want = ('raise', type(e).__name__)
        with open(os.path.join(tmp, 'm.py'), 'w') as f:
            f.write(src)
        form = rng.choice(['view', 'open view', 'opaque', 'pieces'])
        seen = []

        def body(I):
            args = [value(I, form, t, 't'), value(I, '', i, 'i'), value(I, '', j, 'j')]
            fn = I.module_get(I.prog.module('m'), 'f')
            I.cover('reached')
            try:
                v = I.run_func(fn, args, {})
            except PyRaise as e:
                I.cover('raise ' + e.cls.name)
                return
            if want[0] == 'value':
                I.cover('a value')
                ok = agree(I, v, want[1])
                I.oblige('the value', ok)
                I.assume(ok)
                I.cover('agrees')
            else:
                I.cover('other value')
        I = Engine(Program(tmp))
        I.budget = 20
        n += 1
        try:
            I.verify('f', body)
        except Unsupported as e:
            un += 1
            k = str(e)[:40]
            why[k] = why.get(k, 0) + 1
            continue
        except Exception as e:
            import traceback
            bad += 1
            print('CRASH %s: %s\n%s  t=%r i=%d j=%d form=%s want=%r' % (type(e).__name__, e, src, t, i, j, form, want), flush=True)
            traceback.print_exc(limit=-3)
            continue
        c = {k for k, s in I.covers.items() if s == 'sat'}
        if want[0] == 'value':
            good = 'agrees' in c
        else:
            good = 'raise ' + want[1] in c
        if not good:
            bad += 1
            print('EXCLUDED\n%s  t=%r i=%d j=%d form=%s\n  python: %r\n  covers: %r' % (src, t, i, j, form, want, I.covers), flush=True)
        elif c <= {'reached', 'a value', 'agrees', 'raise ' + str(want[1])} and all(o.status == 'proved' for o in I.obs):
            exact += 1
    print('selftest: %d functions, %d declined, %d with exactly the result of Python, %d others admit it, %d excluded' % (n, un, exact, n - un - exact - bad, bad))
    print('declined:', sorted(why.items(), key=lambda x: -x[1])[:12])
    import shutil
    shutil.rmtree(tmp)
    return 1 if bad else 0


sys.exit(main())
