"""C03: delimited text ends exactly at its own terminator."""
import z3
from pyvc.values import *
from . import parser as P

EOL = (10, 13)


def isin(c, s):
    return z3.Or([c == x for x in sorted(s)])


def cset(I, *names):
    m = I.prog.module('pp.yugen')
    out = set()
    for n in names:
        out |= set(I.module_get(m, n))
    return out


SETS = {'ps_space': ['ps_SPACE'], 'ps_gap': ['ps_EOL', 'ps_SPACE'], 'ps_atom': ['ps_LETTER', 'ps_FIGURE'], 'ps_eol': ['ps_EOL']}


def char_hints(I, ctx, vals, ints, views):
    """All characters passed so far belong (or do not belong) to a set."""
    n = I.ghost['fn']
    a0 = I.ghost['a0']
    if n in SETS:
        S = cset(I, *SETS[n])

        def good(j):
            return isin(P.char(I, j), S)
        lo = a0
    elif n == 'ps_remark_c' or n == 'ps_remark_python':
        S = None

        def good(j):
            return z3.Not(isin(P.char(I, j), EOL))
        lo = a0 + 1
    else:
        return []
    j = z3.Int('j!h')
    out = []

    def upto(name, e):
        out.append((name + ' passed', z3.ForAll([j], z3.Implies(z3.And(lo <= j, j < e), good(j)))))
        if n == 'ps_remark_c':
            out.append((name + ' passed no end', z3.ForAll([j], z3.Implies(
                z3.And(lo + 1 <= j, j < e), z3.Not(z3.And(P.char(I, j) == ord('*'), P.char(I, j + 1) == ord('/')))))))
    for m, t in sorted(ints.items()):
        if '.' in m or m == 'depth' or not isinstance(vals.get(m), (int, SInt)):
            continue
        upto(m, a0 + t)
    for m, v in sorted(views.items()):
        upto(m, v.a)
    return out


def extra(name):
    def f(I, a, ret):
        rest, leg = ret
        r = I.view(rest.payload).a
        j = z3.Int('j!p')
        if name in SETS:
            S = cset(I, *SETS[name])
            n = I.ghost['P'].text.n
            if name == 'ps_eol':
                I.oblige('an end of line is one character', z3.Or(r == a, z3.And(r == a + 1, isin(P.char(I, a), S))))
                I.oblige('an end of line is recognised', z3.Implies(z3.And(a < n, isin(P.char(I, a), S)), r == a + 1))
                return
            I.oblige('it consists of its characters', z3.ForAll([j], z3.Implies(z3.And(a <= j, j < r), isin(P.char(I, j), S))))
            first = cset(I, 'ps_LETTER') if name == 'ps_atom' else S
            I.oblige('it is as long as possible', z3.Implies(r > a, z3.Or(r == n, z3.Not(isin(P.char(I, r), S)))))
            I.oblige('it is recognised', z3.Implies(z3.And(a < n, isin(P.char(I, a), first)), r > a))
            I.oblige('it starts with its characters', z3.Implies(r > a, isin(P.char(I, a), first)))
        elif name in ('ps_remark_c', 'ps_remark_python'):
            n = I.ghost['P'].text.n
            line = z3.And(P.char(I, a) == ord('/'), P.char(I, a + 1) == ord('/'), a + 1 < n) if name == 'ps_remark_c' \
                else z3.And(P.char(I, a) == ord('#'), a < n)
            block = z3.And(P.char(I, a) == ord('/'), P.char(I, a + 1) == ord('*'), a + 1 < n) if name == 'ps_remark_c' else False
            if leg is None:
                I.oblige('a comment is recognised', z3.Not(z3.Or(line, block)))
                return
            I.oblige('it starts with the mark of a comment', z3.Or(line, block))
            I.oblige('a line comment contains no end of line',
                     z3.Implies(line, z3.ForAll([j], z3.Implies(z3.And(a <= j, j < r), z3.Not(isin(P.char(I, j), EOL))))))
            I.oblige('a line comment extends to the end of its line', z3.Implies(line, z3.Or(r == n, isin(P.char(I, r), EOL))))
            if block is not False:
                I.oblige('a block comment ends with its terminator', z3.Implies(
                    block, z3.And(r >= a + 4, P.char(I, r - 2) == ord('*'), P.char(I, r - 1) == ord('/'))))
                I.oblige('a block comment ends at the first terminator', z3.Implies(block, z3.ForAll([j], z3.Implies(
                    z3.And(a + 2 <= j, j < r - 2), z3.Not(z3.And(P.char(I, j) == ord('*'), P.char(I, j + 1) == ord('/')))))))
        elif name in ('ps_quote', 'ps_comment', 'ps_macro'):
            if leg is None:
                return
            gens = I.ghost.get('gens', [])

            def starts(st):
                return z3.And([P.char(I, a + i) == ord(ch) for i, ch in enumerate(st)])
            heads = {'ps_quote': ['(`', '($quote'], 'ps_comment': ['($!'], 'ps_macro': []}[name]
            if name == 'ps_quote' and I.must(z3.Not(z3.Or([starts(h) for h in heads]))):
                # a string or character literal: kept as it is
                w = I.view(leg.payload)
                I.oblige('a literal is kept unchanged', w is not None and z3.And(w.a == a, w.b == r))
                return
            if gens:
                g, s = gens[-1]
                k = I.it(g['k'])
                e = s + k
                I.oblige('no earlier unmatched bracket', z3.Not(I.bt(g['missed'])))
                I.oblige('the end is at depth zero', I.it(g['dp']) == 0)
            else:
                s = e = r - 1
            I.oblige('the end is a closing bracket', P.char(I, e) == ord(')'))
            I.oblige('nothing but the end is consumed', r == e + 1)
            if heads:
                I.oblige('the text starts right after the mark', z3.Or([z3.And(starts(h), s == a + len(h)) for h in heads]))
            else:
                I.oblige('the text starts right after the parameters', P.char(I, s - 1) == ord(')'))
            if name == 'ps_comment':
                return
            t = leg if name == 'ps_quote' else leg.fields.get('text')
            st = I.strval(t)
            if isinstance(st, str):
                I.oblige('the text is kept unchanged', s == e if st == '' else False)
            else:
                w = I.view(st)
                I.oblige('the text is kept unchanged', w is not None and z3.And(w.a == s, w.b == e))
            if gens:
                I.oblige('depth counts from zero', z3.And(I.it(g['p0']) == 0))
    return f


FUNCS = ['ps_space', 'ps_gap', 'ps_atom', 'ps_eol', 'ps_remark_c', 'ps_remark_python', 'ps_quote', 'ps_comment', 'ps_macro',
         'ps_plain']


def unit(name):
    def run(I):
        P.setup(I)
        I.ghost_init = {'more_hints': char_hints}
        return P.verify(I, name, extra(name) if name != 'ps_plain' else None)
    return run


UNITS = [(n, unit(n)) for n in FUNCS]
