"""C04 at run time: numerals against a reference reader."""
from yu import *
import re

LIT = re.compile(r'[+-]? *[0-9]+\.[0-9]+(?:[eE][+-]?[0-9]+)?|[+-]?[ \t]*(?:0[xX][0-9a-fA-F]+|0[bB][01]+|0[oO][0-7]+|0[0-7]*|[1-9][0-9]*)[lL]?')


def longest(t):
    best = None
    for n in range(len(t), 0, -1):
        if LIT.fullmatch(t, 0, n):
            return n
    return 0


def value(w):
    w = w.replace(' ', '').replace('\t', '')
    if re.fullmatch(r'[+-]?[0-9]+\.[0-9]+([eE][+-]?[0-9]+)?', w):
        return float(w)
    w = w.rstrip('lL')
    sign = -1 if w[0] == '-' else 1
    d = w.lstrip('+-')
    v, base = d, 10
    if d[:2] in ('0x', '0X'):
        v, base = d[2:], 16
    elif d[:2] in ('0b', '0B'):
        v, base = d[2:], 2
    elif d[:2] in ('0o', '0O'):
        v, base = d[2:], 8
    elif d[0] == '0' and len(d) > 1:
        v, base = d[1:], 8
    n = 0
    for c in v:
        n = n * base + '0123456789abcdef'.index(c.lower())
    return sign * n


def one(r, t):
    r.case(t)
    s = SOURCE('x' + t, 'f', 0)[1:]
    try:
        rest, leg = yugen.ps_number(s)
    except Exception as e:
        r.fail('raise:' + type(e).__name__, 'reading a number fails', text=t, error=repr(e))
        return
    n = longest(t)
    got = len(t) - len(rest)
    if n == 0:
        if leg is None:
            r.check(got == 0, 'nothing', 'nothing is read and something is consumed', text=t, consumed=got)
        else:
            r.check(re.match(r'[+-]?[ \t]*(\.?\d)', t) is not None, 'notnumber', 'a number is read where there is none', text=t, got=leg)
        return
    if not t.isascii():
        return                  # digits of other scripts are free
    # a doubled suffix and an incomplete floating literal may be taken too
    longer = got > n and (t[n:got].lower() == 'l' or re.fullmatch(r'[+-]?[ \t]*\d+(\.\d*)?([eE][+-]?\d+)?', t[:got]) is not None)
    if not r.check(leg is not None and (got == n or longer), 'whole', 'a literal is not read whole', text=t, expected=t[:n], consumed=t[:got]):
        return
    w = value(t[:n]) if got == n or t[n:got].lower() == 'l' else float(t[:got].replace(' ', ''))
    r.check(type(leg) in (INT, FLOAT) and leg == w and (isinstance(w, float)) == isinstance(leg, FLOAT), 'value', 'a literal has a wrong value',
            text=t, expected=w, got=leg)


SIGN = ['', '', '-', '+', '- ', '+  ', '-\t', ' ', '--']
BODY = ['0', '00', '07', '017', '0777', '08', '09', '1', '9', '10', '42', '0x0', '0xF', '0XabL', '0x1fLL', '0b0', '0B101', '0b2', '0o7', '0O17', '0o8', '0x', '0xg', '0b',
        '1.5', '0.5', '00.25', '12.0', '1.5e3', '1.5E-2', '1.5e+10', '1.', '.5', '1e5', '1.5e', '1.5.2', '123456789012345678901234567890', 'a', '', 'l', 'e5', '1_000',
        '0_1', '\u0663', '1\u0663', '\xb2', '0777l', '0x7L']
TAIL = ['', 'L', 'l', 'LL', 'Ll', ' ', ')', 'x', '.', '.5', 'e1', '0', '9', '-1', 'u', '_', '\n']


def body(r):
    r.rule = 'sign x body x tail, then random strings over the alphabet of literals; distinct by text'
    for a in SIGN:
        for b in BODY:
            for c in TAIL:
                one(r, a + b + c)
    while r.left() > 0:
        one(r, ''.join(r.rng.choice('0123456789abefxXoOlLEe+- .\t7890000') for _ in range(r.rng.randrange(1, 9))))


main(body)
