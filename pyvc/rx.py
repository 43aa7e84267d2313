"""Structure of regular expressions (the parse tree of the re module)."""
import re
import functools

parse = re._parser.parse
C = re._constants

FULL = [(0, 0x10ffff)]


def norm(rs):
    out = []
    for a, b in sorted(rs):
        if out and a <= out[-1][1] + 1:
            out[-1][1] = max(out[-1][1], b)
        else:
            out.append([a, b])
    return [tuple(x) for x in out]


def negate(rs):
    out = []
    p = 0
    for a, b in norm(rs):
        if p < a:
            out.append((p, a - 1))
        p = b + 1
    if p <= 0x10ffff:
        out.append((p, 0x10ffff))
    return out


@functools.lru_cache(None)
def category(name):
    """Ranges of a category in str patterns."""
    probe = {'CATEGORY_DIGIT': r'\d', 'CATEGORY_SPACE': r'\s', 'CATEGORY_WORD': r'\w'}
    nm = str(name)
    neg = '_NOT_' in nm
    r = re.compile(probe[nm.replace('_NOT_', '_')])
    out = []
    for c in range(0x110000):
        if r.match(chr(c)):
            out.append((c, c))
    out = norm(out)
    return tuple(negate(out) if neg else out)


def charset(op, av, flags=0):
    """Ranges of a single-character node."""
    if op is C.LITERAL:
        rs = [(av, av)]
    elif op is C.NOT_LITERAL:
        rs = negate([(av, av)])
    elif op is C.ANY:
        rs = FULL if flags & re.DOTALL else negate([(10, 10)])
    elif op is C.IN:
        rs = []
        neg = False
        for o, a in av:
            if o is C.NEGATE:
                neg = True
            elif o is C.LITERAL:
                rs.append((a, a))
            elif o is C.RANGE:
                rs.append(tuple(a))
            elif o is C.CATEGORY:
                rs.extend(category(a))
            else:
                return None
        rs = negate(rs) if neg else norm(rs)
    elif op is C.CATEGORY:
        rs = list(category(av))
    else:
        return None
    if flags & re.IGNORECASE:
        more = []
        for a, b in rs:
            for c in range(a, min(b, a + 300) + 1):
                for x in {chr(c).lower(), chr(c).upper()}:
                    if len(x) == 1:
                        more.append((ord(x), ord(x)))
        rs = norm(list(rs) + more)
    return rs


def first(tree, flags):
    """(ranges of the possible first characters or None if unknown, may be empty)"""
    rs = []
    for op, av in tree:
        cs = charset(op, av, flags)
        if cs is not None:
            return rs + list(cs), False
        if op is C.SUBPATTERN:
            r, e = first(av[-1], flags)
        elif op is C.BRANCH:
            r, e = [], False
            for b in av[1]:
                x, y = first(b, flags)
                if x is None:
                    return None, True
                r = r + x
                e = e or y
        elif op in (C.MAX_REPEAT, C.MIN_REPEAT) or str(op) == 'POSSESSIVE_REPEAT':
            r, e = first(av[2], flags)
            e = e or av[0] == 0
        elif op is C.AT:
            r, e = [], True
        elif op in (C.ASSERT, C.ASSERT_NOT):
            r, e = [], True
        else:
            return None, True
        if r is None:
            return None, True
        rs = rs + r
        if not e:
            return rs, False
    return rs, True


@functools.lru_cache(None)
def first_set(pattern, flags):
    t = parse(pattern, flags)
    r, e = first(t, t.state.flags)
    if r is None or e:
        return None
    return tuple(norm(r))
