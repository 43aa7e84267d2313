"""C01 at run time: every call of every ps_* function is checked against the contract."""
from yu import *
import gen

NAMES = [n for n in dir(yugen) if n.startswith('ps_') and callable(getattr(yugen, n)) and n not in ('ps_term',)]
GENS = ('ps_text', 'ps_plain')
STATE = {}


def valid(r, T, F, v, what, lo=0):
    ok = isinstance(v, SOURCE) and v.input_file == F and 0 <= v.pos <= len(T) and str(v) == T[v.pos:]
    if not ok and isinstance(v, SOURCE) and str(v) == '' :
        ok = v.input_file == F and v.pos == len(T)
    r.check(ok, 'rest:%s' % what, 'what %s leaves is not the tail of the text at its offset' % what, text=T, rest=v,
            pos=getattr(v, 'pos', None), input_file=getattr(v, 'input_file', None))
    return ok


def home(T, F, v):
    """The text of the place a node says, and whether it can be there: what is imported has a text of its own."""
    f = v.input_file
    if f == F:
        return T, True
    if '($import' in STATE['main'] and f in yushell.source and f not in (yugen.SOURCE_EMPTY,):
        return yushell.source[f][1], True
    return T, False


def tokens(r, T, F, v, what, seen):
    if id(v) in seen:
        return
    seen.add(id(v))
    if isinstance(v, SOURCE):
        if len(v) and not (isinstance(v, (STR, ATOM)) and v == '...') and v.__class__ is not SOURCE:
            if v.input_file is None and v.pos == 0:
                ok = False
            else:
                t, ok = home(T, F, v)
                ok = ok and t[v.pos:v.pos + len(v)] == str(v)
            if not ok and isinstance(v, STR) and str(v) in STATE.get('free', ()):
                ok = True
            r.check(ok, 'token:%s:%s' % (what, type(v).__name__), 'a token made by %s does not carry its own place' % what, text=T,
                    token=v, pos=v.pos, input_file=v.input_file)
        return
    if isinstance(v, (list, tuple)):
        for x in list(v):
            tokens(r, T, F, x, what, seen)
    if hasattr(v, '__dict__'):
        for x in list(v.__dict__.values()):
            tokens(r, T, F, x, what, seen)
    if isinstance(v, (APPLY, INFIX)):
        T, ok = home(T, F, v)
    if isinstance(v, APPLY):
        r.check(ok and (v.pos and T[v.pos - 1:v.pos + 1] == '($' or T[v.pos:v.pos + 2] == '($'), 'apply:%s' % what,
                'the offset of an application is not inside its bracket', text=T, pos=v.pos, input_file=v.input_file)
    if isinstance(v, INFIX):
        r.check(ok and ('{' in T[max(0, v.pos - 3):v.pos + 4] and any(T.startswith(b, v.pos - k) for b in ('{', '(${}')
                                       for k in range(len(b)))), 'infix:%s' % what,
                'the offset of an infix is not inside its bracket', text=T, pos=v.pos, input_file=v.input_file)


def install(r):
    def wrap(name, f):
        def w(sou, *a):
            T, F = STATE['T'], STATE['F']
            ok = valid(r, T, F, sou, 'a caller of ' + name)
            rest, leg = f(sou, *a)
            r.n += 1
            if not ok:
                return rest, leg
            if valid(r, T, F, rest, name):
                r.check(rest.pos >= sou.pos, 'back:' + name, name + ' goes back', text=T, pos=sou.pos)
                if leg is None:
                    r.check(rest.pos == sou.pos, 'lost:' + name, name + ' consumes text and yields nothing', text=T, pos=sou.pos)
                elif name not in ('ps_binding', 'ps_header_python'):
                    r.check(rest.pos > sou.pos, 'stuck:' + name, name + ' consumes nothing', text=T, pos=sou.pos)
            tokens(r, T, F, leg, name, set())
            return rest, leg
        w.__name__ = name
        return w

    def wrapg(name, f):
        def w(sou, *a):
            T, F = STATE['T'], STATE['F']
            valid(r, T, F, sou, 'a caller of ' + name)
            last = None
            for v in f(sou, *a):
                r.n += 1
                valid(r, T, F, v[0], name)
                if last is not None:
                    r.check(v[0].pos > last, 'stuck:' + name, name + ' does not advance', text=T)
                last = v[0].pos
                if name == 'ps_plain':
                    tokens(r, T, F, v[1], name, set())
                yield v
            return
        w.__name__ = name
        return w
    def parse(name, *a, f=yugen.yuparse):
        """The text of an import is parsed in the course of the parsing."""
        before = dict(STATE)
        if name in yushell.source:
            STATE.update(T=yushell.source[name][1], F=name)
        try:
            return f(name, *a)
        finally:
            STATE.update(before)
    yugen.yuparse = parse
    for n in NAMES:
        f = getattr(yugen, n)
        setattr(yugen, n, wrapg(n, f) if n in GENS else wrap(n, f))


def one(r, T, F='f.yu', py=False, skip=0):
    STATE.update(T=T.replace('\r\n', '\n').replace('\r', '\n'), F=F)
    STATE['main'] = STATE['T']
    r.case((T, py, skip), T)
    limit(10)
    try:
        shell(T, F, 'f.py' if py else 'f.c', pp_skip_comments=skip)
        ast = yugen.yuparse(F)
        tokens(r, STATE['T'], F, ast, 'yuparse', set())
    except (SyntaxError, EOFError, Timeout, OSError):
        pass
    except Exception:
        pass                    # C02
    finally:
        unlimit()


FIXED = ['($set a 5)\n  ($ a)\n', '($ a b, c)', '{1 + 2}', '(${}a)', '($macro m (a) ($a))($m 1)', '($emit a 1)', '($ (`q) "s" \'c\')',
         '/* c */ // d\n# e\n"str" \'c\' ($ a)', '#!/x\n# coding: yupp\nx = "a"\n($ y)', '# coding: yupp.utf8\nx', '# coding: yupp',
         '($ \\...[a])', '($set (N a) \\a.\\...($quote [(\n!)][,0]))($ \\b..\\c:1.\\...(a))',
         '($set a 5)($import(${}"x" + "($y)")) ($ b)\n', 'a ($import (${} "($macro m (P) ($P)) {1 + 2}"))($m {3})']


def body(r):
    r.rule = 'random and damaged source texts of yupp; every call of every parsing function is one evaluation; distinct by text'
    install(r)
    for t in FIXED:
        for py in (False, True):
            for s in (0, 1, 2):
                one(r, t, py=py, skip=s)
    while r.left() > 0:
        one(r, gen.source(r.rng), py=r.rng.random() < .4, skip=r.rng.choice([0, 0, 1, 2]))


main(body)
