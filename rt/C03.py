"""C03 at run time: reference scanners for delimited text."""
from yu import *
from pp.yugen import ps_space, ps_gap
import gen

SPACE, EOLS = ' \t', '\n\r'


def close(t, i):
    """Index of the closing bracket that matches nothing after i, or None."""
    d = 0
    for k in range(i, len(t)):
        if t[k] == '(':
            d += 1
        elif t[k] == ')':
            if d == 0:
                return k
            d -= 1
    return None


def src(t, off=0):
    return SOURCE(t, 'f', 0)[off:]


def call(f, s):
    try:
        rest, leg = f(s)
        return ('ok', len(s) - len(rest), leg, rest)
    except (SyntaxError, EOFError) as e:
        return ('error', str(e.args[0]), None, None)


def run(t, chars):
    n = 0
    while n < len(t) and t[n] in chars:
        n += 1
    return n


LET = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_'
FIG = '0123456789-'


def one(r, t):
    shell(t, 'f', 'f.c')
    yushell.source = {'f': ('f', t)}
    s = src(t)
    r.case(t)

    def expect(name, n, text=None):
        res = call(getattr(yugen, name), s)
        good = res[0] == 'ok' and res[1] == n and (res[2] is not None) == (n > 0) and (text is None or not n or str(res[2]) == text)
        r.check(good, name, '%s: expected %r consumed as %r' % (name, n, text), text=t, got=res[:3])
    expect('ps_space', run(t, SPACE), t[:run(t, SPACE)])
    expect('ps_gap', run(t, SPACE + EOLS), t[:run(t, SPACE + EOLS)])
    expect('ps_eol', 1 if t[:1] in ('\n', '\r') else 0)
    n = run(t, LET + FIG) if t[:1] and t[0] in LET else 0
    expect('ps_atom', n, t[:n])
    # comments
    def line(t):
        k = 0
        while k < len(t) and t[k] not in EOLS:
            k += 1
        return k
    n = line(t) if t[:1] == '#' else 0
    expect('ps_remark_python', n, t[:n])
    if t[:2] == '/*':
        k = t.find('*/', 2)
        if k < 0:
            res = call(yugen.ps_remark_c, s)
            r.check(res[0] == 'error', 'ps_remark_c', 'an endless comment is accepted', text=t, got=res[:3])
        else:
            expect('ps_remark_c', k + 2, t[:k + 2])
    else:
        n = line(t) if t[:2] == '//' else 0
        expect('ps_remark_c', n, t[:n])
    # quotation, comment form, macro
    legal = all(ord(c) in ps_ANY for c in t)
    if legal:
        for mark, name in (('(`', 'ps_quote'), ('($quote', 'ps_quote'), ('($!', 'ps_comment')):
            if t.startswith(mark):
                k = close(t, len(mark))
                res = call(getattr(yugen, name), s)
                if k is None:
                    r.check(res[0] == 'error', name, 'an endless form is accepted', text=t, got=res[:3])
                else:
                    good = res[0] == 'ok' and res[1] == k + 1 and res[2] is not None
                    if good and name == 'ps_quote':
                        good = str(res[2]) == t[len(mark):k]
                    r.check(good, name + mark, '%s does not end at its bracket' % mark, text=t, expected=k + 1, got=res[:3])
        if t.startswith('($macro m (a b)'):
            h = len('($macro m (a b)')
            k = close(t, h)
            res = call(yugen.ps_macro, s)
            if k is None:
                r.check(res[0] == 'error', 'ps_macro', 'an endless macro is accepted', text=t, got=res[:3])
            else:
                good = res[0] == 'ok' and res[1] == k + 1 and isinstance(res[2], MACRO) and str(res[2].text) == t[h:k] \
                    and [str(x) for x in res[2].pars] == ['a', 'b']
                r.check(good, 'ps_macro', 'a macro does not end at its bracket', text=t, expected=k + 1, got=res[:3])
        # ps_plain: depths
        d1 = d2 = 0
        it = yugen.ps_plain(s, 0, 0, None, 0)
        for k in range(len(t)):
            c = t[k]
            if c == '[':
                d1 += 1
            elif c == ']' and d1:
                d1 -= 1
            elif c == '(':
                d2 += 1
            elif c == ')' and d2:
                d2 -= 1
            try:
                v = next(it)
            except (SyntaxError, EOFError) as e:
                r.fail('ps_plain', 'plain text ends too early', text=t, at=k, error=repr(e))
                break
            if not r.check(str(v[0]) == t[k + 1:] and str(v[1]) == t[:k + 1] and v[2] == d1 and v[3] == d2, 'ps_plain',
                           'plain text is counted wrong', text=t, at=k, got=v, expected=(t[k + 1:], t[:k + 1], d1, d2)):
                break


CH = ['(', ')', '(', ')', '[', ']', 'a', 'b-1', ' ', '\t', '\n', '\r', '"', "'", '`', '$', '*', '/', '*/', '//', '\\', '#', '{', '}', '9', '_', ',', '.', '($', '\xe9']
HEAD = ['', '', '(`', '($quote', '($!', '($macro m (a b)', '/*', '//', '#', ' ', 'a', '\t \n']


def body(r):
    r.rule = 'random texts after each opening mark, against reference scanners; distinct by text'
    for h in HEAD:
        for c in [''] + CH:
            for d in [''] + CH:
                one(r, h + c + d)
    while r.left() > 0:
        t = [r.rng.choice(CH) for _ in range(r.rng.randrange(0, 14))]
        if t and r.rng.random() < .01:
            # a long run of one mark
            i = r.rng.randrange(len(t))
            t[i] *= r.rng.randrange(300)
        one(r, r.rng.choice(HEAD) + ''.join(t) + r.rng.choice(['', ')', '*/', '\n']))


main(body)
