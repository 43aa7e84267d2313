"""C04: ps_number of pp/yugen.py, with the regular expressions and the string functions it
uses interpreted exactly, as finite automata over texts of any length: what is consumed is
the longest literal at this place, the digits handed to int() or float() are the literal
without its blanks and its long suffix, and the radix is the one C gives it."""
import re
import z3
from pyvc.values import *
from pyvc import rxstr as X
from . import parser as P

S, B = '[+-]?', '[ \\t]*'
INT = '(?:0[xX][0-9a-fA-F]+|0[bB][01]+|0[oO][0-7]+|0[0-7]*|[1-9][0-9]*)'
FLOAT = '[0-9]+\\.[0-9]+(?:[eE][+-]?[0-9]+)?'
# what must be recognised
SPEC_INT = S + B + INT + '[lL]?'
SPEC_FLOAT = S + ' *' + FLOAT
SPEC = '(?:%s|%s)' % (SPEC_FLOAT, SPEC_INT)
# what may be (the long suffix can be doubled, the digits can be of any script, a part of a floating literal can be missing)
MAX_INT = S + B + '(?:0[xX][\\da-fA-F]+|0[bB][01]+|0[oO][0-7]+|0[0-7]*|[1-9]\\d*)(?:[lL]|ll|LL|lL|Ll)?'
MAX_FLOAT = S + B + '(?:\\d+\\.\\d*|\\.\\d+|\\d+)(?:[eE][+-]?\\d+)?'
C_RADIX = {16: S + '0[xX][\\da-fA-F]+', 2: S + '0[bB][01]+', 8: S + '0(?:[oO][0-7]+|[0-7]*)', 10: S + '[1-9]\\d*'}
# int( string, base ) of Python: what it accepts and with which radix
PY0 = {16: S + '0[xX][\\da-fA-F]+', 2: S + '0[bB][01]+', 8: S + '(?:0[oO][0-7]+|0+)', 10: S + '(?:[1-9]\\d*|0+)'}
PYB = {16: {16: S + '(?:0[xX])?[\\da-fA-F]+'}, 8: {8: S + '(?:0[oO])?[0-7]+'}, 2: {2: S + '(?:0[bB])?[01]+'}, 10: {10: S + '\\d+'}}
PYFLOAT = S + '(?:\\d+\\.?\\d*|\\.\\d+)(?:[eE][+-]?\\d+)?'


def pyint(base):
    if base == 0:
        return PY0
    return PYB.get(base)


def int_hook(I, s, a):
    base = a[0] if a else 10
    if not isinstance(s, X.RStr) or not isinstance(base, int):
        raise Unsupported('int of a symbolic string')
    g = pyint(base)
    if g is None:
        raise Unsupported('int with base %r' % base)
    if not X.holds(I, s, X.Lang('|'.join('(?:%s)' % x for x in g.values()))):
        I.throw('ValueError', 'int')
    r = I.fint('number')
    I.ghost.setdefault('numbers', []).append((r, s, base))
    return r


def float_hook(I, s):
    if not isinstance(s, X.RStr):
        raise Unsupported('float of a symbolic string')
    if not X.holds(I, s, X.Lang(PYFLOAT)):
        I.throw('ValueError', 'float')
    r = SFloat(I.fu('float'))
    I.ghost.setdefault('numbers', []).append((r, s, 'float'))
    return r


def never(I, label, word):
    """The obligation: there is no such text."""
    if word is None:
        I.oblige(label, True)
    else:
        I.ghost['witness'] = word
        I.oblige('%s (text %r)' % (label, word), False)


BLANK = [c for c in X.ALPHA if c in ' \t']


def extra(I, a, ret):
    rest, leg = ret
    tried = I.ghost.get('rx', [])
    for rx, w, b in tried:
        I.oblige('the literal is sought at the beginning of the text', w is not None and w.a == a)
    failed = [rx for rx, w, b in tried if b is None]

    def fail_cons(ops=()):
        return [((), X.Prefix(rx.pattern, rx.flags), False) for rx in failed]
    if leg is None:
        never(I, 'a text that starts with a number yields a number', X.search([((), X.Prefix(SPEC), True)] + fail_cons()))
        return
    used = [b for rx, w, b in tried if b is not None]
    if not used:
        raise Unsupported('a number without a regular expression')
    b = used[-1]
    nums = [x for x in I.ghost.get('numbers', []) if x[0] is leg.payload or isinstance(leg.payload, SInt)
            and isinstance(x[0], SInt) and z3.eq(z3.simplify(x[0].t), z3.simplify(leg.payload.t))]
    if not nums:
        raise Unsupported('the origin of the number')
    val, s, base = nums[-1]
    if s.base is not b:
        raise Unsupported('the origin of the number')
    r = I.view(rest.payload).a
    I.oblige('the literal is consumed exactly', r == b.view.a + b.end)
    isf = base == 'float'
    I.oblige('class of the number', leg.cls.name == ('FLOAT' if isf else 'INT'))
    never(I, 'only a number is consumed', X.search(b.cons + [((), X.Lang(MAX_FLOAT if isf else MAX_INT), False)]))
    # the match of the regular expression is the longest one
    never(I, 'the match is as long as possible', X.preferred_is_longest(b.rx.pattern, b.rx.flags))
    # a longer literal would have been matched, by this expression or by an earlier one
    earlier = []
    for rx, w, bb in tried:
        if bb is b:
            break
        if bb is None:
            earlier.append(((), X.Prefix(rx.pattern, rx.flags), False))
    never(I, 'the literal is consumed whole', X.search(
        [((), X.Lang(SPEC), True), ((), X.ProperPrefix(b.rx.pattern, b.rx.flags), True),
         ((), X.Lang(b.rx.pattern, b.rx.flags), False)] + earlier))
    # its value
    spec = [X.Erase(BLANK)] + ([] if isf else [X.RStrip('lL')])
    never(I, 'the value is that of its digits', X.search(b.cons, pair=(s.ops, tuple(spec))))
    if isf:
        never(I, 'an integer literal is an integer', X.search(b.cons + [((), X.Lang(SPEC_INT), True)]))
    else:
        g = pyint(base)
        for k, lang in sorted(C_RADIX.items()):
            ok = g.get(k)
            never(I, 'a literal of radix %d is read with radix %d' % (k, k), X.search(
                b.cons + [(s.ops, X.Lang(lang), True)] + ([(s.ops, X.Lang(ok), False)] if ok else [])))
        never(I, 'every literal has a radix', X.search(b.cons + [(s.ops, X.Lang('|'.join(C_RADIX.values())), False)]))
        never(I, 'a floating literal is not an integer', X.search(b.cons + [((), X.Lang(SPEC_FLOAT), True)]))


def hook(I):
    I.int_hook = int_hook
    I.float_hook = float_hook
    I.ghost_init = dict(getattr(I, 'ghost_init', {}), track_rx=True)


def number(I):
    P.setup(I)
    hook(I)
    return P.verify(I, 'ps_number', extra)


UNITS = [('ps_number', number)]
TRUSTED = ['int() and float() of Python on the decimal, hexadecimal, octal and binary strings they accept',
           'characters outside ASCII are represented by one decimal digit, one superscript, one letter, one space and one other']
