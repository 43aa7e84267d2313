"""C06 at run time: locations of random texts and offsets against a count of their own, and the
diagnostics of programs with a mistake at a known place: in a file, an imported file, the text of
a macro (called by macros) or an evaluated string."""
from yu import *
import collections

P = collections.namedtuple('P', 'input_file pos')


def line_of(text, pos):
    """The number of the line of a position, the text of the line without indentation, the column
    in it; by going through the characters."""
    n, start = 1, 0
    for i in range(pos):
        if text[i] == '\n':
            n, start = n + 1, i + 1
    end = start
    while end < len(text) and text[end] != '\n':
        end += 1
    ln = text[start:end]
    k = 0
    while k < len(ln) and ln[k] in ' \t':
        k += 1
    return n, ln[k:], pos - start - k


def show(kind, name, text, pos, pointer):
    n, ln, col = line_of(text, pos)
    out = '\n  %s "%s", line %d\n    %s' % (kind, name, n, ln)
    if pointer:
        out += '\n    ' + ' ' * col + '^'
    return out


def shown(key, pos, pointer):
    """What the location of a place is, by the table of sources."""
    decl, text = yushell.source[key]
    if key in BY_TEXT:
        call = yushell.inclusion[BY_TEXT[key]]
        out = shown(call.input_file, call.pos, False) if call else ''
        return out + shown(decl.input_file, decl.pos, False) + show('Macro', str(decl), text, pos, pointer)
    return show('File', decl or key, text, pos, pointer)


BY_TEXT = {}


def rtext(rng):
    t = ''.join(rng.choice(['a', 'b', ' ', '\t', '\n', '\n', '  ', 'xyz']) for _ in range(rng.randrange(1, 14)))
    # a long text, a long line
    return t * rng.randrange(1, 2500) if rng.random() < .01 else t


def direct(r):
    rng = r.rng
    shell('', None, None)
    BY_TEXT.clear()
    keys = []
    for i in range(rng.randrange(1, 3)):
        k = rng.choice(['f%d.yu', 'f.%d', '-%d', 'x%d y.yu-c', '.%d', '%d.c', '%da', '+%d', '%d ']) % i
        if k in yushell.source:
            continue
        yushell.source[k] = (rng.choice([None, '', '/p/' + k]), rtext(rng))
        keys.append(k)
    yushell.inclusion = []
    for i in range(rng.randrange(4)):
        def place():
            k = rng.choice(keys)
            return k, rng.randrange(len(yushell.source[k][1]) + 1)
        call = P(*place()) if rng.random() < .7 else None
        yushell.inclusion.append(call)
        n = getattr(yugen, 'SOURCE_INCLUSION', '') + str(i)
        yushell.source[n] = (ATOM('m%d' % i, *place()), rtext(rng))
        BY_TEXT[n] = i
        keys.append(n)
    k = rng.choice(keys)
    t = yushell.source[k][1]
    pos = rng.randrange(len(t) + 1)
    pointer = rng.random() < .8 or not hasattr(yugen, '_loc')
    r.case((tuple(sorted((a, str(b[0]), b[1]) for a, b in yushell.source.items())), k, pos, pointer))
    try:
        got = yugen._loc(k, pos, pointer) if hasattr(yugen, '_loc') else SOURCE(t[pos:], k, pos).loc()
    except Exception as e:
        return r.fail('raise', 'the location of a place', source_key=k, pos=pos, text=t, error=repr(e))
    want = shown(k, pos, pointer)
    n, ln, col = line_of(t, pos)
    if col < 0:
        # in the indentation the pointer stands at the beginning of the line
        if pointer:
            got, want = got.rstrip('^').rstrip(), want.rstrip('^').rstrip()
    r.check(got == want, 'location', 'the location of a place', source_key=k, pos=pos, text=t, got=got, want=want,
            source={a: (str(b[0]), b[1]) for a, b in yushell.source.items()}, inclusion=yushell.inclusion)


def filler(rng):
    return ''.join(rng.choice(['int a;', '\n', '\n\n', '  ', '\t', '/* x */', '"s"', '($add 1 2)', 'e', '($ \\x.[q] 1)', '{ }', '\n    ']) for _ in range(rng.randrange(0, 7)))


def mistake(rng):
    """A text with a mistake, the place of it, and what is said."""
    k = rng.randrange(6)
    w = rng.choice(['', ' ', '\n', '\n\t '])
    if k == 0:
        t = '($set' + ' ' + w
        return t + '5 x)', len(t), 'name expected'
    if k == 1:
        return '($' + w + 'nosuch 7)', len('($' + w), 'no arguments of unbound atom expected'
    if k == 2:
        t = '($ ' + w
        return t + '{1/0})', len(t), 'division by zero'
    if k == 3:
        t = '($import ' + w
        return t + '5)', len(t), 'name of imported file expected'
    if k == 4:
        t = '($let x [q' + w + ']' + w
        return t + ')', len(t), 'form expected'
    t = '($import ' + w
    return t + '"nothing.yu")', len(t), 'No such file'


def programs(r, tmp):
    rng = r.rng
    for fn in os.listdir(tmp):
        os.unlink(os.path.join(tmp, fn))
    depth = rng.choice([0, 0, 1, 1, 2, 3])
    err, epos, what = mistake(rng)
    main = os.path.join(tmp, 'main.yu-c')
    lib = os.path.join(tmp, 'lib.yu')
    files = {main: filler(rng), lib: filler(rng)}
    where = rng.choice([main, main, lib])
    bodies = []
    decl = []
    calls = []
    for i in range(depth):
        b = filler(rng) if rng.random() < .8 else ''
        if i == depth - 1:
            bodies.append((b + err + filler(rng), len(b) + epos))
        else:
            w = rng.choice(['', ' ', '\n'])
            bodies.append((b + '($' + w + 'm%d 7)' % (i + 1) + filler(rng), len(b) + 2 + len(w)))
    # declarations, in any order
    order = list(range(depth))
    rng.shuffle(order)
    decl = {}
    for i in order:
        w = rng.choice(['', '\n', '  '])
        head = '($macro ' + w
        decl[i] = (where, len(files[where]) + len(head))
        files[where] += head + 'm%d (P)' % i + bodies[i][0] + ')' + filler(rng)
    target = rng.choice([main, where])
    if target is main and where is lib:
        files[main] += '($import %s)' % rng.choice(['lib', '"lib.yu"']) + filler(rng)
    elif target is lib:
        pass
    if depth:
        w = rng.choice(['', ' ', '\n'])
        call = (target, len(files[target]) + 2 + len(w))
        files[target] += '($' + w + 'm0 7)' + filler(rng)
    else:
        call = (target, len(files[target]) + epos)
        files[target] += err + filler(rng)
    if target is lib:
        files[main] += '($import %s)' % rng.choice(['lib', '"lib.yu"']) + filler(rng)
    for k, v in files.items():
        with open(k, 'w') as f:
            f.write(v)
    r.case(tuple(sorted(files.items())))
    limit(20)
    try:
        translate(files[main], main, main[:-5] + '.c')
        msg = None
    except Exception as e:
        msg = str(e)
    finally:
        unlimit()
    if not depth:
        want = show('File', call[0], files[call[0]], call[1], True)
    else:
        want = show('File', call[0], files[call[0]], call[1], False)
        for i in range(depth):
            want += show('File', decl[i][0], files[decl[i][0]], decl[i][1], False)
            want += show('Macro', 'm%d' % i, bodies[i][0], bodies[i][1], i == depth - 1)
    r.check(msg is not None and what in msg, 'what', 'the mistake is reported', files=files, message=msg, want=what)
    if msg is not None:
        k = msg.find('\n  File')
        got = msg[k:] if k >= 0 else ''
        r.check(got == want, 'where', 'the place of the mistake is reported', files=files, message=msg, got=got, want=want)


def digits(r, tmp):
    """A file whose name is a number."""
    fn = os.path.join(tmp, '0')
    t = 'a\n ($set 5 x)'
    try:
        translate(t, fn, os.path.join(tmp, '0.c'))
        msg = None
    except Exception as e:
        msg = str(e)
    r.case(('digits', t))
    want = show('File', fn, t, t.find('5'), True)
    r.check(msg is not None and msg.endswith(want), 'digits', 'the place of a mistake in a file whose name is a number', message=msg, want=want)


def evals(r, tmp):
    """A mistake in an evaluated string."""
    rng = r.rng
    err, epos, what = mistake(rng)
    a, b, c = filler(rng), filler(rng).replace('"', ''), filler(rng)
    t = b + err + c
    if '"' in t or "'" in t or '\\' in t:
        return
    code = '"%s"' % t.replace('\n', '\\n').replace('\t', '\\t')
    main = os.path.join(tmp, 'main.yu-c')
    text = a + '($import {' + code + '})' + filler(rng)
    r.case(text)
    limit(20)
    try:
        translate(text, main, main[:-5] + '.c')
        msg = None
    except Exception as e:
        msg = str(e)
    finally:
        unlimit()
    if what == 'No such file' or 'chr' in t:
        return
    call = text.find('{' + code) + 1
    want = show('File', main, text, call, False) + show('Macro', code, t, len(b) + epos, True)
    k = msg.find('\n  File') if msg else -1
    r.check(msg is not None and msg[k:] == want and what in msg, 'evaluated', 'the place of a mistake in an evaluated string', text=text, message=msg, want=want)


def body(r):
    tmp = os.path.abspath('files')
    os.makedirs(tmp, exist_ok=True)
    r.rule = 'random tables of sources and offsets; random programs with one mistake; distinct by text'
    digits(r, tmp)
    while r.left() > 0:
        for _ in range(20):
            direct(r)
        programs(r, tmp)
        evals(r, tmp)


main(body)
