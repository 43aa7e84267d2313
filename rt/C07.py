"""C07 at run time: the blank-line reduction of random texts, against the statement itself."""
from yu import *

CH = ['a', 'b', ' ', '\t', '\n', '\n', '\n', '}', '\x85', '\xa0', '\u2028', '\ufeff', 'x y']


def text(rng):
    if rng.random() < .5:
        return ''.join(rng.choice(CH) for _ in range(rng.randrange(30)))
    ls = []
    for _ in range(rng.randrange(14)):
        c = rng.randrange(8)
        ls.append('' if c < 2 else rng.choice([' ', '\t', '  \t ']) if c < 4 else rng.choice(['', '  ', '\t']) + rng.choice(['a', 'b c', '}', 'd\x85', '"\t"']) + rng.choice(['', '', ' ', '\t ', '\u2029']))
    return '\n'.join(ls) + rng.choice(['', '\n', '\n\n', '  ', '\n ', '\n\n\t'])


def lines(t):
    ls = t.split('\n')
    if not ls[-1]:
        ls.pop()
    return ls


def blank(l):
    return not l.strip()


def space(l):
    return not l.strip(' \t')


def gaps(ls, blank):
    """[ ( line, whether a blank line stands before it ) ], whether one stands at the end"""
    out, g = [], False
    for l in ls:
        if blank(l):
            g = True
        else:
            out.append((l.rstrip(), g))
            g = False
    return out, g


def one(r):
    rng = r.rng
    t = text(rng)
    if rng.random() < .03:
        # a long line, many lines
        t = t.replace('a', 'a' * rng.randrange(1, 700)) if rng.random() < .5 else (t * rng.randrange(1, 100))[:6000]
    elif rng.random() < .02:
        t = t.replace(' ', ' ' * rng.randrange(1, 300))
    on = rng.random() < .9
    browse = rng.random() < .5
    config.pp_reduce_emptiness = on
    config.pp_browse = browse
    r.case((t, on, browse))
    arg = RESULT(t, [(0, 0, 0)], []) if browse else t
    limit(20)
    try:
        got = reduce_emptiness(arg)
        twice = reduce_emptiness(got)
    except Exception as e:
        r.check(False, 'error', 'no error', text=t, error=repr(e)[:200])
        return
    finally:
        unlimit()
    case = dict(text=t, browse=browse, option=on, result=str(got))
    if not on:
        r.check(str(got) == t, 'off', 'the text is unchanged when the option is off', **case)
        return
    # with browse information spacing is not trimmed, and a line is blank when it holds spaces and tabs only
    b = space if browse else blank
    was, now = gaps(lines(t), b), gaps(lines(str(got)), b)
    r.check([l for l, _ in now[0]] == [l for l, _ in was[0]], 'lines', 'the non-blank lines are those of the text, in order', **case)
    r.check([g for _, g in now[0]] == [g for _, g in was[0]], 'gaps', 'a blank line stands where one or more stood', **case)
    r.check(now[1] == was[1] or not was[0] and not lines(t), 'end', 'a blank line at the end stays one', **case)
    ls = lines(str(got))
    r.check(not any(b(x) and b(y) for x, y in zip(ls, ls[1:])), 'successive', 'no two successive blank lines', **case)
    if not browse:
        r.check(all(x == x.rstrip() for x in ls), 'spacing', 'no spacing at the end of a line', **case)
    r.check(str(twice) == str(got), 'twice', 'the reduction of the result is the result', again=str(twice), **case)
    if browse:
        r.check(got.browse == [(0, 0, 0)], 'browse', 'the references are kept', **case)


def program(r):
    """The text of a program is reduced so with its option on."""
    rng = r.rng
    t = ''.join(rng.choice(['a', ' ', '\n', '\n\n', '\n \n', '\t\n', 'bc;', '\n']) for _ in range(rng.randrange(20)))
    browse = rng.random() < .5
    on = rng.random() < .8
    r.case(('program', t, browse, on))
    limit(20)
    try:
        got = str(translate(t, pp_browse=browse, pp_reduce_emptiness=on))
    finally:
        unlimit()
    case = dict(text=t, browse=browse, option=on, result=got)
    if not on:
        r.check(got == t, 'program off', 'the text is unchanged when the option is off', **case)
        return
    was, now = gaps(lines(t), space), gaps(lines(got), space)
    r.check(now == was or not was[0], 'program', 'the lines of the text, blank lines where some stood', **case)
    ls = lines(got)
    r.check(not any(space(x) and space(y) for x, y in zip(ls, ls[1:])), 'program successive', 'no two successive blank lines', **case)


def body(r):
    r.rule = 'random texts of lines, blank lines and spacing; distinct by text and options'
    while r.left() > 0:
        one(r) if r.rng.random() < .85 else program(r)


main(body)
