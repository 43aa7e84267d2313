"""C08 at run time: the browse information of random programs, looked up by the plugin itself
(with stand-ins for the editor).  Every source character is a letter of its own as far as
letters go, so a letter of the result must lead to the very letter of a source."""
import builtins
import io
import os
import types
from yu import *

builtins.xrange = range
sys.modules['sublime'] = types.ModuleType('sublime')
sp = sys.modules['sublime_plugin'] = types.ModuleType('sublime_plugin')
sp.EventListener = sp.TextCommand = object
for _n in ('WindowCommand', 'ApplicationCommand'):
    setattr(sp, _n, object)
plugin = types.ModuleType('plugin')
_fn = os.path.join(REPO, 'sublime_text', 'Data', 'Packages', 'yupp', 'yupp.py')
with open(_fn) as _f:
    exec(compile(_f.read(), _fn, 'exec'), plugin.__dict__)

LETTERS = [chr(c) for c in list(range(65, 91)) + list(range(97, 123)) + list(range(0xC0, 0x100)) if c not in (0xD7, 0xF7)]


class View:
    def __init__(self, fn):
        self.fn = fn
        self.pos = 0

    def file_name(self):
        return self.fn

    def sel(self):
        p = self.pos

        class R:
            def begin(self):
                return p
        return [R()]

    def window(self):
        class W:
            def folders(self):
                return []
        return W()


class Command(plugin.GotoOriginCommand):
    def __init__(self, view):
        self.view = view
        self.went = None

    def goto(self, fn, pos):
        self.went = (fn, pos)


def lookup(cmd, fn, pos):
    plugin.file_jump.clear()
    cmd.view.pos = pos
    cmd.went = None
    cmd.run(None)
    return cmd.went


class G:
    """Texts of letters, each used once as long as they last."""

    def __init__(self, rng):
        self.rng = rng
        self.pool = list(LETTERS)
        rng.shuffle(self.pool)
        self.many = rng.random() < .3
        self.setters = []

    def letter(self):
        if self.many or not self.pool:
            return self.rng.choice(LETTERS)
        return self.pool.pop()

    def line(self):
        rng = self.rng
        return ''.join(self.letter() for _ in range(rng.randrange(1, 4)))

    def plain(self):
        rng = self.rng
        out = ''
        for _ in range(rng.randrange(1, 4)):
            out += rng.choice(['', ' ', '    ', '\t']) + rng.choice(['%s', '%s', '%s', '"%s"', '/* %s */ ', '{ %s; }']) % self.line() + rng.choice(['', '\n', '\n', ' \n\n', '\n \n\n'])
        return out

    def text(self, d):
        """The text of a form [ … ]."""
        rng = self.rng
        out = rng.choice(['', '\n', '\n'])
        for _ in range(rng.randrange(1, 4)):
            out += self.plain() + rng.choice(['', ' ', '  ', '\t'])
            if rng.random() < .5:
                out += self.app(d)
        return out

    def app(self, d):
        rng = self.rng
        c = rng.randrange(11)
        if d <= 0 or c == 0:
            return '($add %d 1)' % rng.randrange(20)
        if c < 3 and self.setters:
            return '($%s)' % rng.choice(self.setters)
        if c == 3:
            return '($ \\x.[%s($x)%s] (`%s))' % (self.text(d - 1), self.plain(), self.line())
        if c == 4:
            return '($ %s \\x.[%s($x)%s])' % (rng.choice(['(0 1 2)', '(1)', '($range 3)']), self.text(d - 1), self.plain())
        if c == 5:
            return '($ \\x.[($x)%s($x)] (`%s))' % (self.plain(), self.line())
        if c == 6:
            return '($ \\x.[%s($x)%s($x)] [%s])' % (rng.choice(['', self.plain()]), self.plain(), self.text(d - 1))
        if c == 7:
            return '($ [%s] ? %d | [%s])' % (self.text(d - 1), rng.randrange(2), self.plain())
        if c == 8:
            return '($let x [%s] [%s($x)])' % (self.text(d - 1), rng.choice(['', self.plain()]))
        return '($ \\x.[%s] %d)' % (self.text(d - 1), rng.randrange(3))

    def program(self):
        rng = self.rng
        out = ''
        self.setters = []
        for i in range(rng.randrange(3)):
            n = 'f%d' % i
            t = '($set %s [%s])' % (n, self.text(1)) if rng.random() < .5 else '($set %s (`%s))' % (n, self.line())
            out += t + rng.choice(['', '\n', '\n\n', '  '])
            self.setters.append(n)
        for _ in range(rng.randrange(1, 5)):
            out += self.plain() + rng.choice(['', ' ', '    ', '\t']) + self.app(2) + rng.choice(['', '\n', ';\n'])
        return out + self.plain()


def one(r, tmp):
    rng = r.rng
    g = G(rng)
    files = {'main.yu-c': g.program()}
    if rng.random() < .3:
        files['lib.yu-c'] = g.program().replace('f0', 'h0').replace('f1', 'h1')
        t = files['main.yu-c']
        k = t.find('\n') + 1
        files['main.yu-c'] = rng.choice(['', g.plain()]) + '($import "lib.yu-c")' + rng.choice(['', '\n', '\n\n']) + t
    fn, fo = os.path.join(tmp, 'main.yu-c'), os.path.join(tmp, 'main.c')
    for k, v in files.items():
        with open(os.path.join(tmp, k), 'w', encoding='utf8') as f:
            f.write(v)
    opts = dict(pp_browse=True, pp_reduce_emptiness=rng.random() < .7, pp_trim_app_indent=rng.random() < .8)
    r.case((tuple(sorted(files.items())), tuple(sorted(opts.items()))))
    case = dict(files=files, options=opts)
    limit(20)
    try:
        res = translate(files['main.yu-c'], fn, fo, **opts)
    except Exception as e:
        r.check(False, 'error', 'the program is translated', error=repr(e)[:300], **case)
        return
    finally:
        unlimit()
    if res is None:
        return r.check(False, 'error', 'the program is translated', **case)
    res_text = str(res)
    for o in (fo, fo + '.json', fo + '.bak'):
        if os.path.exists(o):
            os.remove(o)
    ok, out, name = yup._pp_stream(io.StringIO(files['main.yu-c']), fn, fo)
    if not r.check(ok and str(out) == res_text and name == fo and os.path.isfile(fo + '.json'), 'saved', 'the table is saved beside the output', outcome=(ok, out, name), **case):
        return
    plugin.file_state.clear()
    plugin.file_data.clear()
    plugin.open_file(fo)
    cmd = Command(View(fo))
    sources = {os.path.join(tmp, k): v for k, v in files.items()}
    where = {}
    for k, v in sources.items():
        for i, ch in enumerate(v):
            where.setdefault(ch, []).append((k, i))
    ps = [i for i, ch in enumerate(res_text) if ch in LETTERS]
    if len(ps) > 60:
        ps = rng.sample(ps, 60)
    for i in ps:
        ch = res_text[i]
        w = lookup(cmd, fo, i)
        ok = w is not None and w[0] in sources and 0 <= w[1] < len(sources[w[0]]) and sources[w[0]][w[1]] == ch
        if not ok:
            r.check(False, 'lookup', 'the character leads to its origin', result=res_text, position=i, character=ch,
                    leads_to=w, found=sources[w[0]][w[1]:w[1] + 5] if w and w[0] in sources else None, expected=where.get(ch), browse=res.browse, offset=res.offset, **case)
            return


def last(tab, x):
    """The number of entries not after x, of a table in order of positions."""
    return sum(1 for p in tab if p[0] <= x)


def tables(r):
    rng = r.rng
    a = sorted((rng.randrange(12), rng.randrange(9)) for _ in range(rng.randrange(9)))
    x = rng.randrange(-1, 14)
    r.case((tuple(a), x))
    for m, what in ((yugen, 'pp/yugen.py'), (plugin, 'the plugin')):
        f = getattr(m, '_bisect', None)
        if f is None:
            continue
        limit(5)
        try:
            got = f(a, x)
        except Exception as e:
            got = repr(e)
        finally:
            unlimit()
        r.check(got == last(a, x), 'bisect', 'the last entry not after the position', table=a, position=x, where=what, result=got, expected=last(a, x))


def at(tab, x):
    n = last(tab, x)
    return x + (tab[n - 1][1] if n else 0)


def edits(rng, n):
    """A table of edits of a text of n characters: deletions and insertions -> ( table, where every
    character of the new text that is kept stood )"""
    tab, new, old, pos, total = [], [], 0, 0, 0
    while old < n:
        c = rng.randrange(4)
        if c == 0:
            d = rng.randrange(1, 4)
            d = min(d, n - old)
            total += d
            old += d
            if tab and tab[-1][0] == pos:
                tab[-1] = (pos, total)
            else:
                tab.append((pos, total))
        elif c == 1:
            for _ in range(rng.randrange(1, 3)):
                total -= 1
                tab.append((pos, total))
                pos += 1
                new.append(None)
        k = rng.randrange(1, 5)
        for _ in range(min(k, n - old)):
            new.append(old)
            old += 1
            pos += 1
    return tab, new


def merged(r):
    """A table composed with another leads where the one after the other leads."""
    rng = r.rng
    n = rng.randrange(1, 14)
    t1, new1 = edits(rng, n)
    t2, new2 = edits(rng, len(new1))
    r.case((n, tuple(t1), tuple(t2)))
    for i, k in enumerate(new1):
        if k is not None:
            assert at(t1, i) == k
    try:
        m = yugen._merge_offset(t1, t2) if t1 else t2
    except Exception as e:
        return r.check(False, 'merge', 'no error', first=t1, second=t2, error=repr(e)[:200])
    for i, k in enumerate(new2):
        if k is not None and new1[k] is not None:
            if not r.check(at(m, i) == new1[k], 'merge', 'the composed table leads where the two lead', first=t1, second=t2, merged=m, position=i, leads_to=at(m, i), expected=new1[k]):
                return


def body(r):
    tmp = os.path.join(os.getcwd(), 'c08')
    os.makedirs(tmp, exist_ok=True)
    r.rule = 'random programs with browse information, every letter looked up; random tables; distinct by text and tables'
    while r.left() > 0:
        c = r.rng.random()
        one(r, tmp) if c < .3 else merged(r) if c < .7 else tables(r)


main(body)
