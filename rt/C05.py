"""C05 at run time: texts without macro forms translate to themselves, and what surrounds macro
forms stays in place, for random texts, languages, comment modes and options."""
from yu import *

WORDS = ['int', 'x', 'y1', '_z', '42', '0x1F', '3.5', '+', '-', '=', '==', ';', ',', '{', '}', '[', ']', '(', ')', '()', '[]', '$', '$x', '$(x)', '\\', '\\n', '`', '($',
         '&', '*', '%', '#', '@', '!', '?', '~', '^', '|', '<', '>', '.', ':', '::', '..', '...', 'set', '$set', 'yupp', '\xe9', '\xff', '\xa0', '\xad', ')]', '][', ';;', ',,', '\\set', '*(']
SPACES = [' ', ' ', '  ', '\t', '\n', '\n', '\n\n', '\n\n\n', ' \n', '\n  ', '\n\t', '\n    \n', '\r\n']
INNER = ['a', 'b c', '($x)', '($set y 1)', '(`q)', '($', '($!', ')', '(', ']', '[', '  ', '$', '\t', '\xe9', '/*', '//', '#', '%d']
CSTR = ['\\n', '\\"', "\\'", '\\\\']


def inner(rng, bad):
    out = ''.join(rng.choice(INNER) for _ in range(rng.randrange(5) if rng.random() < .995 else rng.randrange(200)))
    for b in bad:
        out = out.replace(b, '')
    return out


def string(rng, py):
    if not py:
        if rng.random() < .3:
            return "'%s'" % rng.choice(['a', '\\n', '"', '(', ']', '\\\'', ' ', '$', '\\x41'])
        return '"%s"' % (inner(rng, ['\n']) + rng.choice(['', '', '\\n', '\\"', "'"]))
    q = rng.choice(['"', "'", '"""', "'''"])
    p = rng.choice(['', '', '', 'r', 'u', 'b', 'f', 'R', 'rb'])
    s = inner(rng, [] if len(q) == 3 else ['\n'])
    if rng.random() < .3:
        s += '\\n'
    if len(q) == 3 and rng.random() < .5:
        s += '\n ' + inner(rng, [])
    return p + q + s + q


def comment(rng, skip):
    """A comment that is skipped as it is in this mode."""
    if skip == 1:
        if rng.random() < .5:
            return '//' + inner(rng, []) + '\n'
        return '/*' + (inner(rng, []) + rng.choice(['', '\n ', '*', '**', '/'])).replace('*/', '') + '*/'
    return '#' + inner(rng, []) + '\n'


def plain(rng, py, skip, n):
    out = []
    for _ in range(rng.randrange(n)):
        c = rng.random()
        if c < .5:
            out.append(rng.choice(WORDS) if rng.random() < .998 else rng.choice(['x', '9', '-', '\xe9']) * rng.randrange(500))
        elif c < .8:
            out.append(rng.choice(SPACES) if rng.random() < .998 else rng.choice([' ', '\t', '\n']) * rng.randrange(150))
        elif c < .9:
            out.append(' ' + string(rng, py) + ' ')
        elif skip:
            out.append(' ' + comment(rng, skip))
    return out


def harmless(parts, py, skip):
    """The text of the parts without what begins a macro form outside strings and comments."""
    out = ''
    for p in parts:
        q = p.strip()
        whole = len(q) > 1 and (q[-1] in '"\'' or q[:2] in ('//', '/*') or q[0] == '#' and p[-1] == '\n')
        if not whole:
            p = p.replace('($', '( $').replace('(`', '( `')
            if skip == 2:
                p = p.replace('#', '')
        while out[-1:] == '(' and p[:1] in ('$', '`'):
            p = ' ' + p
        if skip == 1:
            while out[-1:] == '/' and p[:1] in ('/', '*'):
                p = ' ' + p
        if py and whole and (out[-1:].isalnum() or out[-1:] == '_'):
            p = ' ' + p
        out += p
    return out


def lines(t):
    ls = t.split('\n')
    if not ls[-1]:
        ls.pop()
    return ls


def gaps(t, browse):
    """The lines that are not blank, each with whether a blank line stands before it."""
    out, g = [], False
    for l in lines(t):
        if not (l.strip(' \t') if browse else l.strip()):
            g = True
        else:
            out.append((l if browse else l.rstrip(), g))
            g = False
    return out


FORMS = [('($ 5)', '5'), ('(${} 1 + 2)', '3'), ('($quote q r)', ' q r'), ('(`z)', 'z'), ('($v)', 'val'), ('($\\p.[<($p)>] 7)', '<7>'), ('($m 8)', 'm8m'),
         ('($! note (a) [b])', ''), ('($set w 1)', ''), ('(`(x) y)', '(x) y'), ('($ (`t) ? 1 | (`e))', 't'), ('($let v (`in) ($v))', 'in'), ('($list 1 2)', '12'),
         ('($macro k (P) [($P)])', ''), ('($ ($\\a.\\b.[($b)($a)] 1) 2)', '21'), ('($v)($v)', 'valval'), ('($ [v2])', 'v2'), ('(`)', ''),
         ('($n 5)', '<5|4|m5m>'), ('($\\p.[<($m ($p))|($p)>] 7)', '<m7m|7>'), ('($\\p.[<($n ($p))|($p)>] 7)', '<<7|4|m7m>|7>'), ('($n 5)($n 6)', '<5|4|m5m><6|4|m6m>'),
         ('($ ($\\p.\\q.[($m ($p))-($q)-($m ($q))] 1) 2)', 'm1m-2-m2m'), ("($import {'i1($v)i2'})x", 'i1vali2x'), ('($\\p.[a($set z ($p))b($z)c] 6)', 'ab6c'),
         ('($\\p.[a($! note)b($p)c] 6)', 'ab6c'), ('($\\p.[a($\\q.[<($p)($q)>] 3)c] 6)', 'a<63>c'), ('($m [($n 1)])', 'm<1|4|m1m>m'), ("($import {'i3'})", 'i3')]
PRE = '($macro n (P)<($P)|($set q 4)($q)|($m ($P))>)($set v (`val))($macro m (P)m($P)m)'


def same(r, key, want, got, case):
    reduce, browse = case['reduce'], case['browse']
    case = dict(case, result=got)
    if not reduce:
        r.check(got == want, key, 'the text outside macro forms is reproduced character for character', **case)
    else:
        r.check(gaps(got, browse) == gaps(want, browse), key, 'the text outside macro forms is reproduced up to the reduction of blank lines', **case)


def one(r):
    rng = r.rng
    py = rng.random() < .4
    skip = rng.choice([0, 1, 2])
    reduce, trim, browse = rng.random() < .5, rng.random() < .7, rng.random() < .4
    fn = 'main.yu-py' if py else 'main.yu-c'
    n = 6 if rng.random() < .4 else 30
    forms = rng.random() < .5
    if not forms:
        text = want = harmless(plain(rng, py, skip, n), py, skip)
    else:
        parts, text, want = [], '', ''
        for i in range(rng.randrange(1, 6)):
            p = harmless(plain(rng, py, skip, 7), py, skip)
            # spacing after a form of no value is deleted: begin what follows with a character
            if i:
                p = (p if v and p[:1] not in ('$', '`') else '{' + p) + rng.choice(['}', '\n  ', ' ', '', '\n'])
            f, v = rng.choice(FORMS)
            p += 'A' if not v or p[-1:] in ('(', '/', '*', '_') or p[-1:].isalnum() else ''
            text, want = text + p + f, want + p + v
        text = PRE + '{' + text + '}'
        want = '{' + want + '}'
        if skip == 2 and '#' in want or skip == 1 and '//' in want:
            # a form on the line of a comment is part of the comment
            if any('#' in l.split('"')[0] or '//' in l for l in text.split('\n') if '($' in l or '(`' in l):
                return
    r.case((text, fn, skip, reduce, trim, browse))
    case = dict(text=text, file=fn, skip_comments=skip, reduce=reduce, trim=trim, browse=browse, expected=want)
    want = want.replace('\r\n', '\n')  # line ends are unified on input
    case['expected'] = want
    limit(30)
    try:
        got = translate(text, fn, 'main.py' if py else 'main.c', pp_skip_comments=skip, pp_reduce_emptiness=reduce, pp_trim_app_indent=trim, pp_browse=browse)
    except Exception as e:
        if type(e).__name__ != 'Timeout':
            r.check(False, 'error', 'a text of this kind is translated', error=repr(e)[:300], **case)
        else:
            r.check(False, 'no end', 'a text of this kind is translated', **case)
        return
    finally:
        unlimit()
    if got is None:
        got = ''
    same(r, 'forms' if forms else 'plain', want, str(got), case)


def body(r):
    r.rule = 'random texts of words, strings and comments, with and without macro forms among them; distinct by text and options'
    while r.left() > 0:
        one(r)


main(body)
