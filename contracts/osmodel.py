"""The path functions of os.path (POSIX) over strings with parts of known languages, as
their documentation defines them.  Trusted; tools/selftest.py compares them with the real ones."""
import posixpath
import z3
from pyvc.values import *
from pyvc import lang as L
from pyvc.rxstr import Lang, Has

NODOT = Lang('[^.]*')


def pieces(s):
    return [s] if isinstance(s, str) else list(s.ps)


def val(I, v):
    s = I.strval(v)
    if s is None or not L.pure(s):
        raise Unsupported('path function of a string of unknown origin')
    return s


def split(I, s):
    """( directory part with its slash, last component )"""
    ps = pieces(s)
    for i in range(len(ps) - 1, -1, -1):
        p = ps[i]
        if isinstance(p, str):
            j = p.rfind('/')
            if j >= 0:
                return I.mkstr(ps[:i] + [p[:j + 1]]), I.mkstr([p[j + 1:]] + ps[i + 1:])
        elif L.ask(SStr([p]), Has('/'), ('has', '/')):
            raise Unsupported('a path split inside a part')
    return '', s


def basename(I, a, kw):
    return split(I, val(I, a[0]))[1]


def dirname(I, a, kw):
    d = split(I, val(I, a[0]))[0]
    if isinstance(d, str):
        return posixpath.dirname(d)
    ps = pieces(d)
    if not isinstance(ps[-1], str):
        raise Unsupported('dirname')
    t = ps[-1].rstrip('/')
    r = I.mkstr(ps[:-1] + [t])
    if t:
        return r
    # the parts before the slashes: not empty, not ending with a slash
    if L.decide(r, Lang('[\\s\\S]*[^/]'), 'noslash end') is True:
        return r
    raise Unsupported('dirname')


def splitext(I, a, kw):
    s = val(I, a[0])
    if isinstance(s, str):
        return posixpath.splitext(s)
    d, b = split(I, s)
    if isinstance(b, str):
        r, e = posixpath.splitext(b)
        return I.concat(d, r), e
    ps = pieces(b)
    for i in range(len(ps) - 1, -1, -1):
        p = ps[i]
        if isinstance(p, str):
            j = p.rfind('.')
            if j >= 0:
                r, e = I.mkstr(ps[:i] + [p[:j]]), I.mkstr([p[j:]] + ps[i + 1:])
                if not L.ask(r, Lang('\\.*'), 'dots') if r != '' else False:
                    return I.concat(d, r), e
                return s, ''
        elif L.decide(SStr([p]), Has('.'), ('has', '.')) is not False:
            # a part with dots: a name without extension only if all of them lead
            if L.decide(I.mkstr(ps[:i + 1]), Lang('\\.*[^./]*'), 'no extension') is True:
                return s, ''
            raise Unsupported('an extension inside a part')
    return s, ''


def join(I, a, kw):
    cur = val(I, a[0])
    for x in a[1:]:
        s = val(I, x)
        if s != '' and L.ask(s, Lang('/[\\s\\S]*'), 'absolute'):
            cur = s
            continue
        if cur != '':
            e = L.decide(cur, Lang('[\\s\\S]*/|'), 'ends with a slash')
            if e is None:
                raise Unsupported('join to a string of unknown ending')
            if not e:
                cur = I.concat(cur, '/')
        cur = I.concat(cur, s)
    return cur


def install(I):
    for n, f in (('splitext', splitext), ('basename', basename), ('dirname', dirname), ('join', join)):
        I.overrides['os.path.' + n] = Builtin('os.path.' + n, f)
    I.overrides['os.path.split'] = Builtin('os.path.split', lambda I, a, kw: (dirname(I, a, kw), basename(I, a, kw)))
    I.overrides['os.path.sep'] = '/'
    I.overrides['os.sep'] = '/'


def directory(I, name='dir'):
    """The directory part of a path: nothing, or anything and a slash."""
    if I.choose(2) == 0:
        return ''
    return SStr([L.piece(I, name, '(?:[\\s\\S]*[^/])?'), '/'])
