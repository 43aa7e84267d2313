"""Random source texts of yupp."""

WORDS = ['a', 'b', 'foo', 'x1', 'm', 'int', 'N-1', '_k']
NUMS = ['0', '1', '42', '-7', '+3', '0x1F', '0b101', '017', '0o17', '5L', '0xFFLL', '1.5', '2.25e3', '- 5', '0', '007', '1e5', '3.', '.5', '08']
PLAIN = ['a', 'b', 'word', ' ', '  ', '\t', '\n', '\n', ';', ',', '.', 'x = 1;', '{', '}', '[', ']', '(', ')', '*', '\\', '/', '-', '+', '"s"',
         "'c'", '"a\\"b"', '// c\n', '/* c\n d */', '# p\n', '#if 1\n', '$', '!', '?', '|', ':', '%', '<', '>', '=', '&', '^', '~', '@', '`', '\xe9', '"""t"""',
         "'''q'''", 'r"\\"', "u'z'", '\r', '\r\n', '"', "'", '/', '\\\n', ',,', ';;', '\\set', '\\emit', '\\let', 'coding', '\\\n']
OPEN = ['($', '($set', '($let', '($import', '($quote', '(`', '($macro', '($!', '($emit', '(${}', '($code', '($\\', '{', '[', '(', '($($', '\\', '\\p', ']', ')',
        '..', '...', '..a', '*', '?', '|', '&', '$', '($ ', '($set ', '($macro ', '($emit ', '($let ', '\\set', '\\emit)', '\\let', '\\import', '__', '_', ',,',
        ';;', 'EMBED', '\x01', '\u0416']


def soup(rng, n=None, extra=()):
    """A heap of tokens."""
    n = n or rng.randrange(1, 14)
    pool = [OPEN, PLAIN, WORDS, NUMS] + ([list(extra)] if extra else [])
    return ''.join(rng.choice(rng.choice(pool)) + rng.choice(['', '', ' ', '']) for _ in range(n))


def bal(rng, d=2):
    """Plain text with balanced brackets."""
    out = []
    for _ in range(rng.randrange(0, 5)):
        k = rng.randrange(8)
        if k == 0 and d:
            out.append('(' + bal(rng, d - 1) + ')')
        elif k == 1 and d:
            out.append('[' + bal(rng, d - 1) + ']')
        else:
            out.append(rng.choice(['a', 'b', ' ', '\n', 'word', ';', ',', '.', '"', "'", '{', '}', '`', '$', '!', '\\', '/', '*', '0', '-', '\xe9', '#', '\t', '\r']))
    return ''.join(out)


def ws(rng):
    return rng.choice(['', '', ' ', ' ', '\n', '  ', '\t', '\n    '])


def sp(rng):
    return rng.choice([' ', ' ', '\n', '  ', '\t', '\n    '])


def form(rng, d=3):
    """A well-formed (most of the time) form."""
    k = rng.randrange(15)
    if d <= 0:
        k = k % 5
    if k == 0:
        return rng.choice(WORDS)
    if k == 1:
        return rng.choice(NUMS)
    if k == 2:
        return rng.choice(['"s"', "'c'", '"a b"', '"\\n"', '""', '"($x)"'])
    if k == 3:
        return '(`' + bal(rng) + ')'
    if k == 4:
        return '($quote ' + bal(rng) + ')'
    if k == 5:
        return '\\' + rng.choice(WORDS[:5]) + rng.choice(['.', ':1.', ':"d".', '..', '...', '.\\...']) + form(rng, d - 1)
    if k == 6:
        return '(' + ' '.join(form(rng, d - 1) for _ in range(rng.randrange(4))) + ')'
    if k == 7:
        return '{' + ws(rng) + infix(rng) + ws(rng) + '}'
    if k == 8:
        return ']' + ws(rng) + text(rng, d - 1) + ws(rng) + '['
    if k == 9:
        return rng.choice(WORDS) + '..' + rng.choice(WORDS)
    if k == 10:
        return '(' + form(rng, d - 1) + ' ? ' + form(rng, d - 1) + ' | ' + form(rng, d - 1) + ')'
    return app(rng, d)


def infix(rng):
    return rng.choice(['1 + 2', 'a * b', '2 ** 3', '(a + 1) * 2', 'len("abc")', '1 if a else 2', 'a', '"x" + "y"', '{1: 2}[1]', ''])


def app(rng, d=3):
    k = rng.randrange(12)
    w = rng.choice(WORDS)
    if k == 0:
        return '($set' + sp(rng) + w + sp(rng) + form(rng, d - 1) + rng.choice(['', '', '\\set', ' \\set ']) + ')'
    if k == 1:
        return '($set' + sp(rng) + '(' + ' '.join(rng.choice(WORDS) for _ in range(rng.randrange(1, 3))) + ')' + sp(rng) + form(rng, d - 1) + ')'
    if k == 2:
        return '($macro' + sp(rng) + w + ' (' + ' '.join(rng.choice(WORDS) for _ in range(rng.randrange(3))) + ')' + text(rng, d - 1) + ')'
    if k == 3:
        return '($let' + sp(rng) + w + sp(rng) + form(rng, d - 1) + sp(rng) + form(rng, d - 1) + rng.choice(['', '\\let']) + ')'
    if k == 4:
        return '($!' + bal(rng) + ')'
    if k == 5:
        return '($emit' + sp(rng) + w + rng.choice(['', ' ' + form(rng, d - 1)]) + rng.choice(['', '\\emit']) + ')'
    if k == 6:
        return '(${}' + infix(rng) + ')'
    if k == 7:
        return '($code ' + text(rng, d - 1) + ')'
    if k == 8:
        return '($' + ws(rng) + form(rng, d - 1) + ''.join(',' + text(rng, d - 1) for _ in range(rng.randrange(3))) + ')'
    return '($' + ws(rng) + form(rng, d - 1) + ''.join(sp(rng) + rng.choice(['', '', '', '\\' + rng.choice(WORDS) + ' ']) + form(rng, d - 1)
                                                 for _ in range(rng.randrange(4))) + ws(rng) + ')'


def text(rng, d=3):
    out = []
    for _ in range(rng.randrange(0, 6)):
        k = rng.randrange(8)
        if k < 3 and d > 0:
            out.append(app(rng, d))
        elif k == 3:
            out.append('\n' + ' ' * rng.randrange(4))
        else:
            out.append(rng.choice(['a', 'b', 'word', ' ', ';', '\n', 'x = 1;', '"s"', "'c'", '/* c */', '// d\n', '[1]', '(y)', '{z}', '\t', '.', '-']))
    return ''.join(out)


def source(rng):
    """A source text: well formed, damaged, or a heap of tokens."""
    k = rng.randrange(10)
    if k < 3:
        return soup(rng)
    s = text(rng, rng.randrange(1, 4))
    if k < 6:
        for _ in range(rng.randrange(1, 4)):
            i = rng.randrange(len(s) + 1)
            j = min(len(s), i + rng.randrange(0, 3))
            m = rng.randrange(3)
            if m == 0:
                s = s[:i] + s[j:]
            elif m == 1:
                s = s[:i] + rng.choice(rng.choice([OPEN, PLAIN, NUMS])) + s[i:]
            else:
                s = s[:i] + rng.choice('()[]{}$\\`"\'\n .,!?|') + s[j:]
    return s


def plain(rng):
    """A text without macro forms and without anything that could start one."""
    out = []
    d = []
    for _ in range(rng.randrange(1, 25)):
        k = rng.randrange(12)
        if k == 0:
            out.append('(')
            d.append(')')
            out.append(rng.choice(['x', ' ', '1', '*', '\n']))
        elif k == 1 and d:
            out.append(d.pop())
        elif k == 2:
            out.append(rng.choice(['"s"', "'c'", '"a\\"b"', "'\\n'", '"($x)"', '"\\\\"', "'('", '""']))
        elif k == 3:
            out.append('\n' + rng.choice(['', ' ', '\t', '    ', '\n', '\n\n', ' \n \n']))
        else:
            out.append(rng.choice(['a', 'b', 'word', ' ', ';', 'x = 1;', '{', '}', '[', ']', '\t', '.', '-', '\\', '/', '*', '$', '!', '%', '<', '&', '~', '@',
                                   '\xe9', 'int main', '+', '=', ',', '0', '12', '`', '?', '|', ':', '^', '# if', '//', '/*', '\\\n', '_', 'EMBED', '!!']))
    return ''.join(out) + ''.join(reversed(d))
