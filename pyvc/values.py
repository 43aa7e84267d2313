"""Symbolic values of the verifier.

Concrete Python values stand for themselves (None, bool, int, str, float,
frozenset, tuple).  Everything else is one of the classes below.  Objects are
mutable Python objects: a path is always executed from its beginning, so no
state is ever copied.
"""
import itertools
import z3

U = z3.DeclareSort('U')
SeqU = z3.SeqSort(U)
IntS = z3.IntSort()
ArrI = z3.ArraySort(IntS, IntS)


def whole(a):
    """A file is read as a whole."""
    if a and a[0] not in (None, -1):
        raise Unsupported('a part of a file is read')


class Unsupported(Exception):
    """The construct is outside the verified subset: the function is undecided."""


class PathEnd(Exception):
    """This path is finished (infeasible, or cut at a loop back edge)."""


class SInt:
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return 'SInt(%s)' % self.t


class SClock(SInt):
    """A number of seconds with a fractional part, counted in units of a second / SECOND."""
    __slots__ = ()
    SECOND = 10 ** 9

    @staticmethod
    def units(x):
        return int(x * SClock.SECOND) if isinstance(x, (int, float)) and not isinstance(x, bool) else x


class SBool:
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return 'SBool(%s)' % self.t


class SFloat:
    """Opaque floating point number."""
    def __init__(self, u):
        self.u = u


class Text:
    """A symbolic text: code points in an array, any length (one object per name)."""
    _all = {}

    def __new__(cls, name):
        if name not in cls._all:
            cls._all[name] = object.__new__(cls)
        return cls._all[name]

    def __init__(self, name):
        self.name = name
        self.arr = z3.Array(name + '!chars', IntS, IntS)
        self.n = z3.Int(name + '!len')

    def __repr__(self):
        return 'Text(%s)' % self.name


class View:
    """Characters a..b-1 of a text (0 <= a <= b <= n is an invariant)."""
    __slots__ = ('text', 'a', 'b')

    def __init__(self, text, a, b):
        self.text, self.a, self.b = text, a, b

    def __repr__(self):
        return '%s[%s:%s]' % (self.text.name, self.a, self.b)


class ZStr:
    """A z3 string term."""
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return 'ZStr(%s)' % self.t


class OStr:
    """An opaque string: an element of U with a length."""
    __slots__ = ('u', 'n')

    def __init__(self, u, n):
        self.u, self.n = u, n

    def __repr__(self):
        return 'OStr(%s)' % self.u


class SStr:
    """A string as a rope of pieces: str | View | ZStr | OStr."""
    __slots__ = ('ps',)

    def __init__(self, pieces):
        out = []
        for p in pieces:
            if isinstance(p, str):
                if not p:
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] += p
                    continue
            elif isinstance(p, View) and out and isinstance(out[-1], View) and out[-1].text is p.text \
                    and z3.eq(z3.simplify(out[-1].b), z3.simplify(p.a)):
                out[-1] = View(p.text, out[-1].a, p.b)
                continue
            out.append(p)
        self.ps = tuple(out)

    def __repr__(self):
        return 'SStr%r' % (self.ps,)


class ListP:
    """Payload of a list object.

    kind 'conc':  items  -- python list of values
    kind 'seq':   seq    -- z3 Seq(U); elements are boxed values
    kind 'tup':   n, arrs -- list of tuples of ints (k arrays); k == 0: list of ints (1 array)
    kind 'views': n, text, L -- element i is text[L[i]:L[i+1]] (adjacent pieces of a text)
    """
    def __init__(self, kind, **kw):
        self.kind = kind
        self.__dict__.update(kw)

    def copy(self):
        p = ListP(self.kind)
        p.__dict__.update(self.__dict__)
        if self.kind == 'conc':
            p.items = list(self.items)
        return p

    def __repr__(self):
        return 'ListP(%s)' % self.__dict__


class DictP:
    """Payload of a dict object: an ordered association list, the most recent
    binding of a key first, over an opaque base (`base`: symbolic part)."""
    def __init__(self, items=None, base=None):
        self.items = dict(items or {})      # concrete keys -> value
        self.base = base                    # None: empty base
        self.removed = set()


class Map:
    """Base of a dict with keys and values of U."""

    def __init__(self, dom, val):
        self.dom, self.val = dom, val

    @staticmethod
    def empty(I):
        return Map(z3.K(U, z3.BoolVal(False)), z3.K(U, I.uNone))

    @staticmethod
    def any(I, name):
        return Map(z3.Const(I.fresh_name(name + '.dom'), z3.ArraySort(U, z3.BoolSort())),
                   z3.Const(I.fresh_name(name + '.val'), z3.ArraySort(U, U)))

    def has(self, I, k):
        return SBool(z3.Select(self.dom, I.box(k)))

    def get(self, I, k):
        return I.sym(None, u=z3.Select(self.val, I.box(k)))

    def set(self, I, k, v):
        h = getattr(I, 'map_set', None)
        if h:
            h(I, self, k, v)
        return Map(z3.Store(self.dom, I.box(k), z3.BoolVal(True)), z3.Store(self.val, I.box(k), I.box(v)))

    def truth(self, I):
        x = z3.Const('x!m', U)
        b = I.fbool('not empty')
        w = I.fu('a key')
        I.assume(z3.Implies(b.t, z3.Select(self.dom, w)))
        I.assume(z3.Implies(z3.Not(b.t), z3.ForAll([x], z3.Not(z3.Select(self.dom, x)))))
        return b


class Obj:
    """A heap object."""
    _ids = itertools.count(1)

    def __init__(self, cls, payload=None, fields=None):
        self.cls = cls
        self.payload = payload
        self.fields = dict(fields or {})
        self.oid = next(Obj._ids)
        self.u = None
        self.ghost = {}

    def __repr__(self):
        return '<%s %r %r>' % (self.cls.name, self.payload, self.fields)


class Sym:
    """An object of unknown class (lazily refined).  `u` is its term."""
    def __init__(self, u, classes=None):
        self.u = u
        self.oid = next(Obj._ids)
        self.classes = classes          # frozenset of leaf class names, or None: any
        self.fields = {}
        self.payloads = {}
        self.ghost = {}

    def __repr__(self):
        return 'Sym(%s,%s)' % (self.u, sorted(self.classes) if self.classes else '*')


class Class:
    def __init__(self, name, bases, attrs, module=None, builtin=False):
        self.name, self.bases, self.attrs, self.module, self.builtin = name, bases, attrs, module, builtin
        self.mro = self._mro()

    def _mro(self):
        seqs = [list(b.mro) for b in self.bases] + [list(self.bases)]
        res = [self]
        while True:
            seqs = [s for s in seqs if s]
            if not seqs:
                return res
            for s in seqs:
                c = s[0]
                if not any(c in t[1:] for t in seqs):
                    break
            else:
                raise Unsupported('mro of ' + self.name)
            res.append(c)
            for s in seqs:
                if s[0] is c:
                    del s[0]

    def issub(self, other):
        return other in self.mro

    def __repr__(self):
        return '<class %s>' % self.name


class Func:
    def __init__(self, node, module, closure=None, qual=None, cls=None):
        self.node, self.module, self.closure = node, module, closure
        self.name = getattr(node, 'name', '<lambda>')
        self.qual = qual or self.name
        self.cls = cls
        self.attrs = {}
        self.kind = None
        self.defaults = None
        self.kw_defaults = None

    def __repr__(self):
        return '<function %s>' % self.qual


class Builtin:
    """A modelled library function."""
    def __init__(self, name, fn):
        self.name, self.fn = name, fn
        self.attrs = {}

    def __repr__(self):
        return '<builtin %s>' % self.name


class Bound:
    def __init__(self, fn, self_):
        self.fn, self.self_ = fn, self_


class LibModule:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return '<module %s>' % self.name


class Regex:
    def __init__(self, pattern, flags=0):
        self.pattern, self.flags = pattern, flags


class Slice:
    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step


class IterSrc:
    """An iterable of symbolic length: n (z3 term) and get(k)."""
    def __init__(self, n, get, what=''):
        self.n, self.get, self.what = n, get, what


class GenObj:
    """A generator of a function under a yield contract (ghost state in .g)."""
    def __init__(self, contract, g):
        self.contract, self.g = contract, g


class Poison:
    """A variable that may be unbound or has an unknown value."""
    def __init__(self, why):
        self.why = why


class PyRaise(Exception):
    def __init__(self, cls, args=(), obj=None, where=None):
        Exception.__init__(self, cls)
        self.cls, self.args_, self.obj, self.where = cls, args, obj, where


class PyReturn(Exception):
    def __init__(self, val):
        self.val = val


class Brk(Exception):
    pass


class Cont(Exception):
    pass


class StarArg(tuple):
    """The argument *x with a list of unknown length."""
