"""Models of the built-in types and of the library functions the verified code
calls.  Every model here is trusted (listed in DESIGN.md); library functions that
touch the outside world are modelled in contracts, not here."""
import ast
import re
import string
import z3

from .values import *
from . import rx as rx_
from . import rxstr
from . import lang as lang_

LINE_ENDS = [(10, 13), (28, 30), (133, 133), (8232, 8233)]
PYSPACE = [(9, 13), (28, 32), (133, 133), (160, 160), (5760, 5760), (8192, 8202), (8232, 8233), (8239, 8239),
           (8287, 8287), (12288, 12288)]


def in_ranges(c, rs):
    return z3.Or([c == a if a == b else z3.And(a <= c, c <= b) for a, b in rs])


def ranges(ints):
    out = []
    for x in sorted(ints):
        if out and out[-1][1] == x - 1:
            out[-1][1] = x
        else:
            out.append([x, x])
    return [tuple(r) for r in out]


EXC_TREE = {
    'BaseException': 'object', 'Exception': 'BaseException', 'SystemExit': 'BaseException',
    'KeyboardInterrupt': 'BaseException', 'GeneratorExit': 'BaseException',
    'ArithmeticError': 'Exception', 'ZeroDivisionError': 'ArithmeticError', 'OverflowError': 'ArithmeticError',
    'AssertionError': 'Exception', 'AttributeError': 'Exception', 'BufferError': 'Exception', 'EOFError': 'Exception',
    'ImportError': 'Exception', 'LookupError': 'Exception', 'IndexError': 'LookupError', 'KeyError': 'LookupError',
    'MemoryError': 'Exception', 'NameError': 'Exception', 'UnboundLocalError': 'NameError', 'OSError': 'Exception',
    'FileNotFoundError': 'OSError', 'PermissionError': 'OSError', 'RuntimeError': 'Exception',
    'RecursionError': 'RuntimeError', 'NotImplementedError': 'RuntimeError', 'StopIteration': 'Exception',
    'SyntaxError': 'Exception', 'TypeError': 'Exception', 'ValueError': 'Exception', 'UnicodeError': 'ValueError',
    'UnicodeDecodeError': 'UnicodeError', 'UnicodeEncodeError': 'UnicodeError', 'Warning': 'Exception',
}


SLICE = z3.Function('str.slice', U, IntS, IntS, U)


def install(I):
    mk_classes(I)
    I.builtins = {}
    I.constructors = {}
    I.lib = {}
    for name, c in I.builtin_classes.items():
        if name in ('NoneType', 'function', 'module', 'generator', 'Match', 'File'):
            continue
        I.builtins[name] = c
    I.builtins['IOError'] = I.builtin_classes['OSError']
    I.builtins['EnvironmentError'] = I.builtin_classes['OSError']
    for n in dir(Models):
        if not n.startswith('__'):
            setattr(I, n, getattr(Models, n).__get__(I))
    for n, f in BUILTINS.items():
        I.builtins[n] = Builtin(n, f)
    for n, f in CONSTRUCTORS.items():
        I.constructors[n] = f
    I.boxS = z3.Function('boxS', z3.StringSort(), U)
    I.boxI = z3.Function('boxI', IntS, U)
    I.boxB = z3.Function('boxB', z3.BoolSort(), U)
    I.boxF = z3.Function('boxF', U, U)
    I.unI = z3.Function('unI', U, IntS)
    I.unB = z3.Function('unB', U, z3.BoolSort())
    I.uNone = z3.Const('uNone', U)
    I.tup2 = z3.Function('tup2', U, U, U)
    I.tup3 = z3.Function('tup3', U, U, U, U)
    I.strlenU = z3.Function('strlenU', U, IntS)
    I.truthU = z3.Function('truthU', U, z3.BoolSort())
    I.eqU = z3.Function('eqU', U, U, z3.BoolSort())
    I.catU = z3.Function('catU', U, U, U)


def mk_classes(I):
    b = I.builtin_classes
    b['object'] = Class('object', [], {}, builtin=True)
    for n in ('NoneType', 'int', 'float', 'str', 'bytes', 'list', 'dict', 'set', 'tuple', 'frozenset', 'type', 'function',
              'module', 'slice', 'generator', 'Match', 'File', 'complex', 'bytearray'):
        b[n] = Class(n, [b['object']], {}, builtin=True)
    b['bool'] = Class('bool', [b['int']], {}, builtin=True)
    for n, p in EXC_TREE.items():
        b[n] = Class(n, [b[p]], {}, builtin=True)


class Models:
    # ---------------------------------------------------------------- strings
    def mkstr(self, pieces):
        s = SStr(pieces)
        if not s.ps:
            return ''
        if len(s.ps) == 1 and isinstance(s.ps[0], str):
            return s.ps[0]
        return s

    def strval(self, v):
        """str or SStr of a string-like value, else None."""
        if isinstance(v, (str, SStr)):
            return v
        if isinstance(v, Obj) and isinstance(v.payload, (str, SStr)):
            return v.payload
        if isinstance(v, Sym):
            return self.sym_str(v)
        return None

    def sym_str(self, v):
        """The text of a Sym known to be a string."""
        self.narrow(v)
        if v.classes and all(self.cls(c).issub(self.builtin_classes['str']) for c in v.classes):
            if 'str' not in v.payloads:
                n = self.strlenU(v.u)
                self.assume(n >= 0)
                v.payloads['str'] = SStr([OStr(v.u, n)])
            return v.payloads['str']
        return None

    def slen(self, s):
        if isinstance(s, str):
            return len(s)
        t = z3.IntVal(0)
        for p in s.ps:
            t = t + self.plen(p)
        return self.mkint(t)

    def plen(self, p):
        if isinstance(p, str):
            return z3.IntVal(len(p))
        if isinstance(p, View):
            return p.b - p.a
        if isinstance(p, ZStr):
            return z3.Length(p.t)
        return p.n

    def view(self, s):
        if isinstance(s, SStr) and len(s.ps) == 1 and isinstance(s.ps[0], View):
            return s.ps[0]
        return None

    def zstr(self, s):
        """z3 string term of a string without views, or None."""
        if isinstance(s, str):
            return z3.StringVal(s)
        if isinstance(s, SStr) and all(isinstance(p, (str, ZStr)) for p in s.ps):
            ts = [z3.StringVal(p) if isinstance(p, str) else p.t for p in s.ps]
            return z3.Concat(*ts) if len(ts) > 1 else ts[0]
        return None

    def fromz(self, t):
        t = z3.simplify(t)
        if z3.is_string_value(t):
            return zunescape(t.as_string())
        return SStr([ZStr(t)])

    def norm_index(self, i, n, default):
        """Clamped slice bound as a z3 term (n: z3 term)."""
        if i is None:
            return default
        t = self.it(i)
        t = z3.simplify(t)
        if z3.is_int_value(t):
            k = t.as_long()
            if k == 0:
                return z3.IntVal(0)
            if k < 0:
                return z3.If(n + k < 0, z3.IntVal(0), n + k)
            if z3.is_int_value(n):
                return z3.IntVal(min(k, n.as_long()))
            if self.must(n >= k):
                return t
            return z3.If(n < k, n, t)
        if self.must(z3.And(t >= 0, t <= n)):
            return t
        if self.must(t >= 0):
            return z3.If(t <= n, t, n)
        return z3.If(t < 0, z3.If(n + t < 0, z3.IntVal(0), n + t), z3.If(t <= n, t, n))

    def str_slice(self, s, sl):
        if sl.step is not None and sl.step != 1:
            if isinstance(s, str) and all(x is None or isinstance(x, int) for x in (sl.start, sl.stop, sl.step)):
                return s[sl.start:sl.stop:sl.step]
            raise Unsupported('string slice with a step')
        if isinstance(s, rxstr.RStr):
            r = rxstr.slice_(self, s, sl)
            if r is not NotImplemented:
                return r
        if isinstance(s, str):
            if all(x is None or isinstance(x, int) for x in (sl.start, sl.stop)):
                return s[sl.start:sl.stop]
            if not s:
                return ''
            z = z3.StringVal(s)
            n = z3.IntVal(len(s))
            a = self.norm_index(sl.start, n, z3.IntVal(0))
            b = self.norm_index(sl.stop, n, n)
            return self.fromz(z3.SubString(z, a, b - a))
        n = self.it(self.slen(s))
        n = z3.simplify(n)
        a = self.norm_index(sl.start, n, z3.IntVal(0))
        b = self.norm_index(sl.stop, n, n)
        a, b = z3.simplify(a), z3.simplify(b)
        v = self.view(s)
        if v is not None:
            if not self.must(a <= b):
                b = z3.If(a <= b, b, a)
            return SStr([View(v.text, z3.simplify(v.a + a), z3.simplify(v.a + b))])
        z = self.zstr(s)
        if z is not None:
            return self.fromz(z3.SubString(z, a, b - a))
        if len(s.ps) == 1 and isinstance(s.ps[0], OStr):
            if self.must(z3.And(a == 0, b == n)):
                return s
            self.imprecise()
            ln = z3.simplify(z3.If(a <= b, b - a, 0))
            return SStr([OStr(SLICE(s.ps[0].u, a, b), ln)])
        # a rope: drop whole pieces when the bounds are at piece limits
        pos = z3.IntVal(0)
        out = []
        started = False
        if sl.start is None:
            started = True
        for p in s.ps:
            nxt = z3.simplify(pos + self.plen(p))
            if not started and self.must(pos == a):
                started = True
            if started and sl.stop is not None and self.must(pos == b):
                return self.mkstr(out)
            if started:
                if sl.stop is not None and not self.must(nxt <= b):
                    if isinstance(p, View):
                        out.append(View(p.text, p.a, z3.simplify(p.a + (b - pos))))
                        if self.must(z3.And(pos <= b, b <= nxt)):
                            return self.mkstr(out)
                    raise Unsupported('slice of a rope')
                out.append(p)
            elif self.must(nxt > a):
                if isinstance(p, View):
                    out.append(View(p.text, z3.simplify(p.a + (a - pos)), p.b))
                    started = True
                elif isinstance(p, str) and z3.is_int_value(z3.simplify(a - pos)):
                    out.append(p[z3.simplify(a - pos).as_long():])
                    started = True
                else:
                    raise Unsupported('slice of a rope')
                if sl.stop is not None:
                    raise Unsupported('slice of a rope')
            pos = nxt
        if sl.stop is None or self.must(pos <= b):
            return self.mkstr(out)
        raise Unsupported('slice of a rope')

    def code_at(self, v, i):
        """Code point of character i (z3 term) of a View."""
        t = z3.Select(v.text.arr, z3.simplify(v.a + i))
        self.assume(z3.And(t >= 0, t <= 0x10FFFF))
        return t

    def str_index(self, s, i):
        """s[i] -> one-character string; raises IndexError."""
        if isinstance(s, rxstr.RStr):
            r = rxstr.index(self, s, i)
            if r is not NotImplemented:
                return r
        if isinstance(s, str) and isinstance(i, int):
            if not -len(s) <= i < len(s):
                self.throw('IndexError', 'string index out of range')
            return s[i]
        if lang_.has(s):
            r = lang_.index(self, s, i)
            if r is not NotImplemented:
                return r
        n = self.it(self.slen(s))
        t = self.it(i)
        ok = z3.And(t >= -n, t < n)
        if not self.must(ok):
            self.throw_if(z3.Not(ok), 'IndexError', 'string index out of range')
        if not self.must(t >= 0):
            t = z3.If(t < 0, n + t, t)
        t = z3.simplify(t)
        v = self.view(s)
        if v is not None:
            a = z3.simplify(v.a + t)
            return SStr([View(v.text, a, z3.simplify(a + 1))])
        z = self.zstr(s)
        if z is not None:
            return self.fromz(z3.SubString(z, t, 1))
        if len(s.ps) == 1 and isinstance(s.ps[0], OStr):
            return self.ostr('ch')
        raise Unsupported('character of a rope')

    def ord_of(self, s):
        if isinstance(s, str):
            if len(s) != 1:
                self.throw('TypeError', 'ord')
            return ord(s)
        n = self.it(self.slen(s))
        if not self.must(n == 1):
            self.throw_if(n != 1, 'TypeError', 'ord')
        v = self.view(s)
        if v is not None:
            return SInt(self.code_at(v, z3.IntVal(0)))
        z = self.zstr(s)
        if z is not None:
            return SInt(z3.StrToCode(z))
        r = self.fint('ord')
        self.assume(z3.And(r.t >= 0, r.t <= 0x10FFFF))
        return r

    def str_eq(self, a, b):
        if isinstance(a, str) and isinstance(b, str):
            return a == b
        if isinstance(b, str):
            a, b = b, a
        if (lang_.has(a) or lang_.has(b)) and lang_.pure(a) and lang_.pure(b):
            return lang_.eq(self, a, b)
        if isinstance(a, str) and isinstance(b, rxstr.RStr):
            return rxstr.holds(self, b, rxstr.lit(a))
        if isinstance(a, str):
            v = self.view(b)
            if v is not None:
                cs = [v.b - v.a == len(a)]
                for k, ch in enumerate(a):
                    cs.append(z3.Select(v.text.arr, z3.simplify(v.a + k)) == ord(ch))
                return self.mkbool(z3.And(cs))
            z = self.zstr(b)
            if z is not None:
                return self.mkbool(z == z3.StringVal(a))
            n = self.it(self.slen(b))
            if not a:
                return self.mkbool(n == 0)
            if len(b.ps) == 1 and isinstance(b.ps[0], OStr):
                return self.mkbool(z3.And(b.ps[0].u == self.boxS(z3.StringVal(a)), n == len(a)))
            q = self.fbool('streq')
            self.assume(z3.Implies(q.t, n == len(a)))
            return q
        va, vb = self.view(a), self.view(b)
        if va is not None and vb is not None and va.text is vb.text:
            if z3.eq(z3.simplify(va.a), z3.simplify(vb.a)) and z3.eq(z3.simplify(va.b), z3.simplify(vb.b)):
                return True
            if self.must(va.b == vb.b):
                return self.mkbool(va.a == vb.a)
            f = z3.Function('eqv!' + va.text.name, IntS, IntS, IntS, IntS, z3.BoolSort())
            q = f(va.a, va.b, vb.a, vb.b)
            self.assume(z3.Implies(q, va.b - va.a == vb.b - vb.a))
            self.assume(z3.Implies(z3.And(va.a == vb.a, va.b == vb.b), q))
            return SBool(q)
        za, zb = self.zstr(a), self.zstr(b)
        if za is not None and zb is not None:
            return self.mkbool(za == zb)
        if len(a.ps) == len(b.ps) and all(self.piece_same(p, q) for p, q in zip(a.ps, b.ps)):
            return True
        ua, ub = self.box(a), self.box(b)
        q = z3.And(ua == ub)
        na, nb = self.it(self.slen(a)), self.it(self.slen(b))
        if len(a.ps) == 1 and len(b.ps) == 1 and isinstance(a.ps[0], OStr) and isinstance(b.ps[0], OStr):
            self.assume(z3.Implies(q, na == nb))
            return self.mkbool(q)
        r = self.fbool('streq')
        self.assume(z3.Implies(q, r.t))
        self.assume(z3.Implies(r.t, na == nb))
        return r

    def piece_same(self, p, q):
        if type(p) is not type(q):
            return False
        if isinstance(p, str):
            return p == q
        if isinstance(p, View):
            return p.text is q.text and self.must(z3.And(p.a == q.a, p.b == q.b))
        if isinstance(p, ZStr):
            return z3.eq(p.t, q.t)
        return z3.eq(p.u, q.u)

    def concat(self, a, b):
        pa = [a] if isinstance(a, str) else list(a.ps)
        pb = [b] if isinstance(b, str) else list(b.ps)
        # adjacent views of one text are one view
        if pa and pb and isinstance(pa[-1], View) and isinstance(pb[0], View) and pa[-1].text is pb[0].text \
                and self.must(pa[-1].b == pb[0].a):
            pa[-1] = View(pa[-1].text, pa[-1].a, pb[0].b)
            pb = pb[1:]
        return self.mkstr(pa + pb)

    def str_of(self, v):
        """str( v ) as an SStr/str (no user-defined __str__)."""
        s = self.strval(v)
        if s is not None:
            return s if isinstance(s, SStr) else SStr([s])
        if isinstance(v, bool) or v is None or isinstance(v, (int, float)):
            return SStr([str(v)])
        if isinstance(v, SInt):
            z = z3.If(v.t >= 0, z3.IntToStr(v.t), z3.Concat(z3.StringVal('-'), z3.IntToStr(-v.t)))
            if self.must(v.t >= 0):
                z = z3.IntToStr(v.t)
            return SStr([ZStr(z)])
        n = self.fint('str.len').t
        self.assume(n >= 0)
        try:
            u = self.box(v)
        except Unsupported:
            u = self.fu('str')
        f = z3.Function('strOf', U, U)
        return SStr([OStr(f(u), n)])

    def format(self, fmt, args):
        if not isinstance(fmt, str):
            return self.ostr('fmt')
        out = []
        i = 0
        mapping = None
        if not isinstance(args, tuple):
            if isinstance(args, Obj) and isinstance(args.payload, DictP):
                mapping = args
            args = (args,)
        args = list(args)
        for m in re.finditer(r'%(?:\((\w+)\))?([-+ #0]*\d*(?:\.\d+)?)([srdifx%])', fmt):
            out.append(fmt[i:m.start()])
            i = m.end()
            if m.group(3) == '%':
                out.append('%')
                continue
            if m.group(1):
                v = self.getitem(mapping, m.group(1))
            else:
                if not args:
                    self.throw('TypeError', 'not enough arguments for format string')
                v = args.pop(0)
            if m.group(3) in 'di' and not isinstance(v, (int, SInt, float, SFloat, bool, SBool, Obj, Sym)):
                self.throw('TypeError', '%d format')
            if m.group(3) == 's':
                out.extend(self.str_of(v).ps)
            elif m.group(3) in 'di' and isinstance(v, (int, SInt)):
                out.extend(self.str_of(v).ps)
            else:
                out.extend(self.ostr('fmt').ps)
        out.append(fmt[i:])
        if args and mapping is None:
            self.throw('TypeError', 'not all arguments converted')
        return self.mkstr(out)

    # ------------------------------------------------------------------ boxing
    def box(self, v):
        """Element of U of a value (equal values have equal terms)."""
        if v is None:
            return self.uNone
        if isinstance(v, Sym):
            return v.u
        if isinstance(v, (bool, SBool)):
            return self.boxB(self.bt(v))
        if isinstance(v, (int, SInt)):
            t = self.boxI(self.it(v))
            self.assume(self.unI(t) == self.it(v))
            return t
        if isinstance(v, str):
            return self.boxS(z3.StringVal(v))
        if isinstance(v, SStr):
            out = None
            for p in v.ps:
                if isinstance(p, str):
                    t = self.boxS(z3.StringVal(p))
                elif isinstance(p, ZStr):
                    t = self.boxS(p.t)
                elif isinstance(p, View):
                    f = z3.Function('boxV!' + p.text.name, IntS, IntS, U)
                    t = f(p.a, p.b)
                else:
                    t = p.u
                out = t if out is None else self.catU(out, t)
            return out
        if isinstance(v, tuple):
            if len(v) == 2:
                return self.tup2(self.box(v[0]), self.box(v[1]))
            if len(v) == 3:
                return self.tup3(self.box(v[0]), self.box(v[1]), self.box(v[2]))
            if len(v) == 0:
                return z3.Const('emptytuple', U)
            raise Unsupported('box of a tuple')
        if isinstance(v, Obj):
            if v.u is None:
                v.u = self.fu('obj')
                self.assume(self.typ(v.u) == self.tag(v.cls.name))
            return v.u
        if isinstance(v, SFloat):
            return self.boxF(v.u)
        if isinstance(v, (Func, Builtin, Class)):
            return z3.Const('fn!' + getattr(v, 'qual', v.name), U)
        raise Unsupported('box of %r' % (v,))

    def unboxB(self, u):
        return self.unB(u)

    # -------------------------------------------------------------- truth/equality
    def truth(self, v):
        if v is None:
            return False
        if isinstance(v, (bool, SBool)):
            return v
        if isinstance(v, (int, float, str, tuple, frozenset)):
            return bool(v)
        if isinstance(v, SInt):
            return self.mkbool(v.t != 0)
        if isinstance(v, rxstr.RStr):
            return rxstr.holds(self, v, rxstr.MinLen(1))
        if isinstance(v, SStr):
            n = self.slen(v)
            return self.mkbool(self.it(n) > 0)
        if isinstance(v, Obj):
            m = self.find(v.cls, '__bool__') or self.find(v.cls, '__len__')
            if m is not None:
                return self.truth(self.call(m, [v]))
            p = v.payload
            if isinstance(p, (str, SStr, int, SInt, float)):
                return self.truth(p)
            if isinstance(p, ListP):
                return self.mkbool(self.it(self.list_len(v)) > 0)
            if isinstance(p, DictP):
                if p.base is None:
                    return bool(p.items)
                if hasattr(p.base, 'truth') and not p.items and not p.removed:
                    return p.base.truth(self)
                raise Unsupported('truth of a symbolic dict')
            if isinstance(p, frozenset) or isinstance(p, set):
                return bool(p)
            if v.cls.issub(self.builtin_classes['list']) or v.cls.issub(self.builtin_classes['dict']):
                raise Unsupported('truth of ' + v.cls.name)
            return True
        if isinstance(v, (Class, Func, Builtin, GenObj, LibModule, Bound)):
            return True
        if isinstance(v, Sym):
            # deterministic truth value, None and plain objects decided by their class
            t = self.truthU(v.u)
            self.assume(z3.Implies(self.typ(v.u) == self.tag('NoneType'), z3.Not(t)))
            objs = [c for c in (v.classes or self.leafs()) if c not in ('NoneType',) and self.plain_object(c)]
            if objs:
                self.assume(z3.Implies(z3.Or([self.typ(v.u) == self.tag(c) for c in sorted(objs)]), t))
            return SBool(t)
        raise Unsupported('truth of %r' % (v,))

    def plain_object(self, cname):
        c = self.cls(cname)
        b = self.builtin_classes
        return not any(c.issub(b[x]) for x in ('str', 'int', 'float', 'list', 'dict', 'tuple', 'set', 'frozenset')) \
            and self.find(c, '__len__') is None and self.find(c, '__bool__') is None

    def eq(self, a, b):
        """a == b -> bool or SBool"""
        if isinstance(a, Obj) or isinstance(b, Obj):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, Obj):
                    m = self.find(x.cls, '__eq__')
                    if isinstance(m, Func):
                        h = getattr(self, 'eq_hook', None)
                        if h:
                            r = h(self, x, y)
                            if r is not NotImplemented:
                                return r
                        return self.truth(self.call(m, [x, y]))
        if isinstance(a, Sym) or isinstance(b, Sym):
            return self.sym_eq(a, b)
        sa, sb = self.strval(a), self.strval(b)
        if sa is not None and sb is not None:
            return self.str_eq(sa, sb)
        if sa is not None or sb is not None:
            return False
        if a is None or b is None:
            return a is None and b is None
        num = (int, float, SInt, SBool)
        if isinstance(a, num) and isinstance(b, num):
            if isinstance(a, (int, float)) and isinstance(b, (int, float)):
                return a == b
            if isinstance(a, float) or isinstance(b, float):
                raise Unsupported('float comparison')
            if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
                return self.mkbool(self.bt(a) == self.bt(b))
            return self.mkbool(self.it(a) == self.it(b))
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            r = [self.eq(x, y) for x, y in zip(a, b)]
            if any(x is False for x in r):
                return False
            return self.mkbool(z3.And([self.bt(x) for x in r])) if r else True
        if isinstance(a, Obj) and isinstance(b, Obj):
            if a is b:
                return True
            if isinstance(a.payload, ListP) and isinstance(b.payload, ListP):
                return self.list_eq(a, b)
            if self.is_int(a.payload) and self.is_int(b.payload):
                return self.eq(a.payload, b.payload)
            if not isinstance(a.payload, (ListP, DictP)) and not isinstance(b.payload, (ListP, DictP)):
                return False
            raise Unsupported('equality of objects')
        if isinstance(a, (Class, Func, Builtin)) or isinstance(b, (Class, Func, Builtin)):
            return a is b
        ca, cb = self.class_of(a), self.class_of(b)
        if isinstance(a, Obj) and self.is_int(a.payload) and isinstance(b, num):
            return self.eq(a.payload, b)
        if isinstance(b, Obj) and self.is_int(b.payload) and isinstance(a, num):
            return self.eq(b.payload, a)
        if ca is not cb and not ca.issub(cb) and not cb.issub(ca):
            return False
        raise Unsupported('equality of %r and %r' % (a, b))

    def sym_eq(self, a, b):
        s, o = (a, b) if isinstance(a, Sym) else (b, a)
        if o is None:
            return self.sym_isinst(s, self.builtin_classes['NoneType'])
        st = self.sym_str(s)
        so = self.strval(o) if not isinstance(o, Sym) else self.sym_str(o)
        if st is not None and so is not None:
            return self.str_eq(st, so)
        if isinstance(o, str):
            strs = self.sym_isinst(s, self.builtin_classes['str'])
            if strs is False:
                return False
            n = self.strlenU(s.u)
            self.assume(n >= 0)
            t = z3.And(self.bt(strs), z3.And(n == 0) if not o else z3.And(n == len(o), self.eqU(s.u, self.boxS(z3.StringVal(o)))))
            return self.mkbool(t)
        if isinstance(o, Sym):
            if z3.eq(s.u, o.u):
                return True
            self.assume(z3.Implies(s.u == o.u, self.eqU(s.u, o.u)))
            return SBool(self.eqU(s.u, o.u))
        u = self.box(o)
        return SBool(self.eqU(s.u, u))

    # ----------------------------------------------------------------- containers
    def contains(self, c, x):
        if isinstance(c, frozenset) or isinstance(c, (set,)):
            return self.in_const(c, x)
        if isinstance(c, tuple):
            r = [self.eq(x, y) for y in c]
            return self.any_(r)
        if isinstance(c, dict):
            return self.in_const(frozenset(c), x)
        if isinstance(c, Obj):
            m = self.find(c.cls, '__contains__')
            if isinstance(m, Func):
                return self.truth(self.call(m, [c, x]))
            if 'contains' in c.ghost:
                return c.ghost['contains'](self, c, x)
            p = c.payload
            if isinstance(p, ListP):
                if p.kind == 'conc':
                    return self.any_([self.eq(x, y) for y in p.items])
                return self.list_contains(c, x)
            if isinstance(p, DictP):
                return self.dict_has(c, x)
            if isinstance(p, (frozenset, set)):
                return self.in_const(frozenset(p), x)
            if isinstance(p, z3.ExprRef):
                h = self.set_contains
                return h(c, x)
        s = self.strval(c)
        if s is not None:
            xs = self.strval(x)
            if xs is None:
                self.throw('TypeError', 'in string')
            if isinstance(s, str) and isinstance(xs, str):
                return xs in s
            if isinstance(xs, str) and xs == '':
                return True
            if lang_.has(s) and lang_.pure(s) and isinstance(xs, str):
                return lang_.ask(s, rxstr.Has(xs), ('has', xs))
            if isinstance(s, rxstr.RStr) and isinstance(xs, str):
                return rxstr.holds(self, s, rxstr.Has(xs))
            if isinstance(xs, rxstr.RStr) and isinstance(s, str):
                return rxstr.holds(self, xs, rxstr.Lang('|'.join(sorted({re.escape(s[i:j]) for i in range(len(s) + 1)
                                                                       for j in range(i, len(s) + 1)}))))
            zs, zx = self.zstr(s), self.zstr(xs)
            if zs is not None and zx is not None:
                return self.mkbool(z3.Contains(zs, zx))
            self.imprecise()
            q = self.fbool('in')
            return q
        h = getattr(self, 'contains_other', None)
        if h:
            return h(self, c, x)
        raise Unsupported('membership in %r' % (c,))

    def any_(self, r):
        if any(x is True for x in r):
            return True
        r = [x.t for x in r if x is not False]
        return self.mkbool(z3.Or(r)) if r else False

    def in_const(self, c, x):
        if isinstance(x, rxstr.RStr) and all(isinstance(y, str) for y in c):
            return rxstr.holds(self, x, rxstr.Lang('|'.join(sorted(map(re.escape, c)))))
        if x is None:
            return None in c
        if isinstance(x, (int, str)) and not isinstance(x, bool):
            return x in c
        if isinstance(x, SInt):
            ints = [k for k in c if isinstance(k, int)]
            if not ints:
                return False
            return self.mkbool(in_ranges(x.t, ranges(ints)))
        s = self.strval(x)
        if s is not None:
            return self.any_([self.eq(s, k) for k in sorted(k for k in c if isinstance(k, str))])
        if isinstance(x, Sym):
            return self.any_([self.eq(x, k) for k in sorted(c, key=repr)])
        if isinstance(x, Obj):
            return False
        raise Unsupported('membership of %r' % (x,))

    def make_set(self, items):
        if items is not None and all(isinstance(x, (int, str, float, type(None))) for x in items):
            return Obj(self.builtin_classes['set'], frozenset(items))
        raise Unsupported('set of symbolic values')

    # ---------------------------------------------------------------------- lists
    def list_len(self, o):
        p = o.payload
        if p.kind == 'conc':
            return len(p.items)
        if p.kind == 'seq':
            return self.mkint(z3.Length(p.seq))
        return self.mkint(p.n)

    def list_elem(self, p, k):
        """Element k (z3 term, in range) of a symbolic list."""
        k = z3.simplify(k) if isinstance(k, z3.ExprRef) else z3.IntVal(k)
        if p.kind == 'seq':
            return self.elem(p.seq[k], p)
        if p.kind == 'tup':
            vals = tuple(self.mkint(z3.Select(a, k)) for a in p.arrs)
            return vals if p.k else vals[0]
        if p.kind == 'views':
            self.view_line(p, k)
            return SStr([View(p.text, z3.Select(p.L, k), z3.Select(p.L, k + 1))])
        if p.kind == 'fn':
            return p.get(k)
        raise Unsupported('element of a symbolic list')

    def view_line(self, p, k):
        a, b = z3.Select(p.L, k), z3.Select(p.L, k + 1)
        self.assume(z3.And(p.a <= a, a <= b, b <= p.b))
        h = getattr(p, 'line_fact', None)
        if h is not None:
            h(k)

    def elem(self, u, p=None):
        """A value for a term of U: symbolic object."""
        u = z3.simplify(u)
        key = ('elem', u.get_id())
        cache = self.ghost.setdefault('elems', {})
        if key not in cache:
            cls = getattr(p, 'classes', None)
            cache[key] = (self.sym(cls, u=u), u)
        return cache[key][0]

    def stored(self, o, v):
        """A value goes into a symbolic list."""
        h = getattr(self, 'append_hook', None)
        if h is not None:
            h(self, o, v)

    def to_kind(self, p, kind):
        """A concrete list in symbolic form."""
        if kind[0] == 'seq':
            for x in p.items:
                self.stored(None, x)
            us = [z3.Unit(self.box(x)) for x in p.items]
            seq = z3.Empty(SeqU) if not us else us[0] if len(us) == 1 else z3.Concat(*us)
            return ListP('seq', seq=seq)
        if kind[0] == 'tup':
            arrs = [z3.K(IntS, z3.IntVal(0)) for _ in range(max(kind[1], 1))]
            for i, x in enumerate(p.items):
                xs = x if kind[1] else (x,)
                arrs = [z3.Store(a, i, self.it(y)) for a, y in zip(arrs, xs)]
            return ListP('tup', n=z3.IntVal(len(p.items)), arrs=arrs, k=kind[1])
        raise Unsupported('list kind %s' % (kind,))

    def seq_of(self, o):
        p = o.payload
        if p.kind == 'conc':
            return self.to_kind(p, ('seq',)).seq
        if p.kind == 'seq':
            return p.seq
        raise Unsupported('sequence term of a %s list' % p.kind)

    def list_index(self, o, i):
        p = o.payload
        n = self.it(self.list_len(o))
        if p.kind == 'conc' and isinstance(i, int):
            if not -len(p.items) <= i < len(p.items):
                self.throw('IndexError', 'list index out of range')
            return ('conc', i if i >= 0 else len(p.items) + i)
        t = self.it(i)
        ok = z3.And(t >= -n, t < n)
        if not self.must(ok):
            self.throw_if(z3.Not(ok), 'IndexError', 'list index out of range')
        if not self.must(t >= 0):
            t = n + t if self.must(t < 0) else z3.If(t < 0, n + t, t)
        return ('sym', z3.simplify(t))

    def list_get(self, o, i):
        if isinstance(i, Obj) and self.is_int(i.payload):
            i = i.payload
        if isinstance(i, Slice):
            return self.list_slice(o, i)
        if not isinstance(i, (int, SInt, SBool)):
            if isinstance(i, Sym):
                raise Unsupported('index of unknown type')
            self.throw('TypeError', 'list indices must be integers')
        k, t = self.list_index(o, i)
        if k == 'conc':
            return o.payload.items[t]
        p = o.payload
        if p.kind == 'conc':
            for j in range(len(p.items) - 1):
                if self.branch(t == j):
                    return p.items[j]
            return p.items[-1]
        return self.list_elem(p, t)

    def list_set(self, o, i, v):
        p = o.payload
        self.wrote(o, 'payload')
        if isinstance(i, Slice):
            if p.kind == 'conc' and all(x is None or isinstance(x, int) for x in (i.start, i.stop, i.step)):
                src = self.iterate(v)
                if isinstance(src, list):
                    p.items[slice(i.start, i.stop, i.step)] = src
                    return
            if i.step is None and 'fn' in (p.kind, getattr(getattr(v, 'payload', None), 'kind', None)) and p.kind in ('conc', 'fn') \
                    and isinstance(v, Obj) and isinstance(v.payload, ListP) and v.payload.kind in ('conc', 'fn'):
                n = z3.IntVal(len(p.items)) if p.kind == 'conc' else p.n
                a = z3.simplify(self.norm_index(i.start, n, z3.IntVal(0)))
                b = z3.simplify(self.norm_index(i.stop, n, n))
                b = z3.If(a <= b, b, a)
                q = p if p.kind == 'fn' else self.to_kind(p, ('fn',))
                o.payload = self.fn_concat([self.fn_map(q, a, lambda k: k), v.payload, self.fn_map(q, z3.simplify(n - b), lambda k: k + b)])
                return
            if i.step is None:
                self.seq_splice(o, i, v)
                return
            raise Unsupported('slice assignment')
        k, t = self.list_index(o, i)
        if k == 'conc':
            p.items[t] = v
            return
        if p.kind == 'tup':
            xs = v if p.k else (v,)
            if not (isinstance(xs, tuple) and len(xs) == max(p.k, 1)):
                raise Unsupported('heterogeneous list')
            p.arrs = [z3.Store(a, t, self.it(x)) for a, x in zip(p.arrs, xs)]
            return
        if p.kind == 'seq':
            n = z3.Length(p.seq)
            p.seq = z3.Concat(z3.SubSeq(p.seq, 0, t), z3.Unit(self.box(v)), z3.SubSeq(p.seq, t + 1, n - t - 1))
            return
        if p.kind == 'fn':
            o.payload = self.fn_cut(p, t, [v])
            return
        raise Unsupported('item assignment')

    def seq_splice(self, o, sl, v):
        p = o.payload
        s = self.seq_of(o)
        n = z3.Length(s)
        a = self.norm_index(sl.start, n, z3.IntVal(0))
        b = self.norm_index(sl.stop, n, n)
        if not self.must(a <= b):
            b = z3.If(a <= b, b, a)
        mid = self.seq_value(v)
        o.payload = ListP('seq', seq=z3.Concat(z3.SubSeq(s, 0, a), mid, z3.SubSeq(s, b, n - b)))

    def seq_value(self, v):
        if isinstance(v, Obj) and isinstance(v.payload, ListP):
            return self.seq_of(v)
        src = self.iterate(v)
        if isinstance(src, list):
            return self.to_kind(ListP('conc', items=src), ('seq',)).seq
        raise Unsupported('sequence value')

    def list_slice(self, o, sl):
        p = o.payload
        b = self.builtin_classes['list']
        if p.kind == 'conc' and all(x is None or isinstance(x, int) for x in (sl.start, sl.stop, sl.step)):
            return Obj(b, ListP('conc', items=p.items[sl.start:sl.stop:sl.step]))
        if p.kind == 'conc' and len(p.items) <= 6 and (sl.step is None or isinstance(sl.step, int) and sl.step > 0):
            n = z3.IntVal(len(p.items))
            i, j = (self.which(self.norm_index(x, n, d), len(p.items)) for x, d in ((sl.start, z3.IntVal(0)), (sl.stop, n)))
            return Obj(b, ListP('conc', items=p.items[i:j:sl.step]))
        if p.kind == 'fn' and (sl.step is None or sl.step == 1):
            i = self.norm_index(sl.start, p.n, z3.IntVal(0))
            j = self.norm_index(sl.stop, p.n, p.n)
            return Obj(b, self.fn_map(p, z3.If(i <= j, j - i, z3.IntVal(0)), lambda k: k + i))
        if p.kind == 'fn' and sl.start is None and sl.stop is None and sl.step == -1:
            return Obj(b, self.fn_map(p, p.n, lambda k: p.n - 1 - k))
        if p.kind == 'fn' and isinstance(sl.step, int) and not isinstance(sl.step, bool) and sl.step != 0:
            st = sl.step

            def bound(b, default):
                if b is None:
                    return default
                t = self.it(b)
                t = z3.If(t < 0, t + p.n, t)
                lo, hi = (z3.IntVal(0), p.n) if st > 0 else (z3.IntVal(-1), p.n - 1)
                return z3.If(t < lo, lo, z3.If(t > hi, hi, t))
            i = bound(sl.start, z3.IntVal(0) if st > 0 else p.n - 1)
            j = bound(sl.stop, p.n if st > 0 else z3.IntVal(-1))
            d = j - i if st > 0 else i - j
            size = z3.If(d > 0, (d + (abs(st) - 1)) / abs(st), z3.IntVal(0))
            return Obj(b, self.fn_map(p, size, lambda k: i + k * st))
        if sl.step is not None and sl.step != 1:
            if sl.start is None and sl.stop is None and sl.step == -1:
                f = self.revf()
                return Obj(b, ListP('seq', seq=f(self.seq_of(o))))
            raise Unsupported('list slice with a step')
        if p.kind == 'tup':
            if sl.start is None and sl.stop is None:
                return Obj(b, p.copy())
            raise Unsupported('slice of an int list')
        s = self.seq_of(o)
        n = z3.Length(s)
        i = self.norm_index(sl.start, n, z3.IntVal(0))
        j = self.norm_index(sl.stop, n, n)
        return Obj(b, ListP('seq', seq=z3.SubSeq(s, i, z3.If(i <= j, j - i, z3.IntVal(0)))))

    def which(self, t, n):
        """The value of a term from 0 to n."""
        for k in range(n):
            if self.branch(t == k):
                return k
        return n

    def revf(self):
        return z3.Function('revSeq', SeqU, SeqU)

    def list_eq(self, a, b):
        pa, pb = a.payload, b.payload
        if pa.kind == 'conc' and pb.kind == 'conc':
            if len(pa.items) != len(pb.items):
                return False
            r = [self.eq(x, y) for x, y in zip(pa.items, pb.items)]
            if any(x is False for x in r):
                return False
            return self.mkbool(z3.And([self.bt(x) for x in r])) if r else True
        if pb.kind == 'conc' and not pb.items:
            return self.mkbool(self.it(self.list_len(a)) == 0)
        if pa.kind == 'conc' and not pa.items:
            return self.mkbool(self.it(self.list_len(b)) == 0)
        raise Unsupported('equality of lists')

    def list_contains(self, c, x):
        p = c.payload
        if p.kind == 'seq':
            return self.mkbool(z3.Contains(p.seq, z3.Unit(self.box(x))))
        if p.kind == 'fn':
            return self.fn_find(p, x, False) is not None
        raise Unsupported('membership in a symbolic list')

    # lists given by a function of the index
    def elem_eq(self, p, k, x):
        """Term: element k of the list equals x (k in range)."""
        if p.kind == 'conc':
            return z3.Or([z3.And(k == i, self.bt(self.eq(y, x))) for i, y in enumerate(p.items)] or [z3.BoolVal(False)])
        if p.kind == 'fn':
            if getattr(p, 'remap', None):
                q, f = p.remap
                return self.elem_eq(q, f(k), x)
            if getattr(p, 'parts', None):
                return z3.Or([z3.And(a <= k, k < a + (len(q.items) if q.kind == 'conc' else q.n), self.elem_eq(q, k - a, x)) for q, a in p.parts])
            with self.under(z3.And(0 <= k, k < p.n)):
                return self.bt(self.eq(p.get(k), x))
        raise Unsupported('element of a %s list' % p.kind)

    def fn_none(self, p, x, lo, hi):
        """Assume that no element from lo to hi equals x (also for the indices at hand, for quick queries)."""
        q = z3.Int(self.fresh_name('q'))
        self.assume(z3.ForAll([q], z3.Implies(z3.And(lo <= q, q < hi), z3.Not(self.elem_eq(p, q, x)))))
        for w in self.ghost.setdefault('fn indices', []):
            for v in self.fn_images(p, w):
                self.assume(z3.Implies(z3.And(lo <= v, v < hi), z3.Not(self.elem_eq(p, v, x))))
        self.ghost.setdefault('fn nones', []).append((p, x, lo, hi))

    def fn_at(self, w):
        for p, x, lo, hi in self.ghost.setdefault('fn nones', []):
            for v in self.fn_images(p, w):
                self.assume(z3.Implies(z3.And(lo <= v, v < hi), z3.Not(self.elem_eq(p, v, x))))
        self.ghost.setdefault('fn indices', []).append(w)

    def fn_images(self, p, w):
        """Indices of p at which an element may be the one at w of the list it was made from."""
        return [w, p.remap[1](w)] if getattr(p, 'remap', None) else [w]

    def fn_find(self, p, x, first=True):
        """The index of (the first element equal to) x, or None."""
        if self.choose(2):
            self.fn_none(p, x, z3.IntVal(0), p.n)
            if self._quick(z3.BoolVal(True)) == 'unsat':
                raise PathEnd()
            return None
        w = self.fint('at').t
        self.assume(z3.And(0 <= w, w < p.n, self.elem_eq(p, w, x)))
        self.fn_at(w)
        if first:
            self.fn_none(p, x, z3.IntVal(0), w)
        if self._quick(z3.BoolVal(True)) == 'unsat':
            raise PathEnd()
        return w

    def fn_map(self, p, n, f):
        return ListP('fn', n=z3.simplify(n), get=lambda k: self.list_elem(p, z3.simplify(f(k))), remap=(p, f))

    def fn_cut(self, p, t, mid=()):
        """Without element t, mid in its place."""
        return self.fn_concat([self.fn_map(p, t, lambda k: k), ListP('conc', items=list(mid)), self.fn_map(p, p.n - t - 1, lambda k: k + t + 1)])

    def fn_concat(self, parts):
        """Lists in a row, each concrete or given by a function."""
        parts = [p.copy() for p in parts]
        n = z3.IntVal(0)
        starts = []
        for p in parts:
            if p.kind not in ('conc', 'fn'):
                raise Unsupported('concatenation of lists')
            starts.append(n)
            n = n + (len(p.items) if p.kind == 'conc' else p.n)
        n = z3.simplify(n)

        def get(k):
            for p, a in zip(parts, starts):
                if p.kind == 'conc':
                    for i, x in enumerate(p.items):
                        if self.branch(k == a + i):
                            return x
                elif self.branch(k < a + p.n):
                    return p.get(z3.simplify(k - a))
            raise PathEnd()
        return ListP('fn', n=n, get=get, parts=list(zip(parts, starts)))

    def list_method(self, o, name, args, kw):
        p = o.payload
        if name in ('append', 'extend', 'insert', 'pop', 'remove', 'clear', 'reverse', 'sort'):
            self.wrote(o, 'payload')
        if name == 'append':
            h = o.ghost.get('append')
            if h is not None:
                h(self, o, args[0])
            if p.kind == 'conc':
                p.items.append(args[0])
            elif p.kind == 'seq':
                self.stored(o, args[0])
                p.seq = z3.Concat(p.seq, z3.Unit(self.box(args[0])))
            elif p.kind == 'tup':
                v = args[0] if p.k else (args[0],)
                if not (isinstance(v, tuple) and len(v) == max(p.k, 1) and all(self.is_int(x) for x in v)):
                    raise Unsupported('heterogeneous list')
                p.arrs = [z3.Store(a, p.n, self.it(x)) for a, x in zip(p.arrs, v)]
                p.n = p.n + 1
            elif p.kind == 'fn':
                o.payload = self.fn_concat([p, ListP('conc', items=[args[0]])])
            else:
                raise Unsupported('append')
            return None
        if name == 'extend':
            src = self.iterate(args[0])
            if isinstance(src, list):
                for x in src:
                    self.list_method(o, 'append', [x], {})
                return None
            v = args[0]
            if isinstance(v, Obj) and isinstance(v.payload, ListP) and 'fn' in (v.payload.kind, p.kind):
                o.payload = self.fn_concat([p, v.payload])
                return None
            if isinstance(v, Obj) and isinstance(v.payload, ListP) and v.payload.kind == 'seq':
                h = o.ghost.get('extend')
                if h is not None:
                    h(self, o, v)
                s = self.seq_of(o)
                o.payload = ListP('seq', seq=z3.Concat(s, v.payload.seq))
                return None
            q = v.payload if isinstance(v, Obj) and isinstance(v.payload, ListP) else None
            if q is not None and q.kind == 'tup' and q.k and not o.ghost.get('append') and (p.kind == 'conc' or (p.kind, p.k) == ('tup', q.k)):
                if p.kind == 'conc' and not all(isinstance(x, tuple) and len(x) == q.k for x in p.items):
                    raise Unsupported('heterogeneous list')
                p = self.to_kind(p, ('tup', q.k)) if p.kind == 'conc' else p
                n, j = p.n, z3.Int('j!x')
                if z3.is_int_value(z3.simplify(n)) and z3.simplify(n).as_long() == 0:
                    o.payload = q.copy()
                    return None
                new = ListP('tup', n=n + q.n, arrs=[z3.Const(self.fresh_name('joined'), a.sort()) for a in p.arrs], k=q.k)
                for x, a, b in zip(new.arrs, p.arrs, q.arrs):
                    self.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), z3.Select(x, j) == z3.Select(a, j)), patterns=[z3.Select(x, j)]))
                    self.assume(z3.ForAll([j], z3.Implies(z3.And(n <= j, j < n + q.n), z3.Select(x, j) == z3.Select(b, j - n)), patterns=[z3.Select(x, j)]))
                o.payload = new
                return None
            raise Unsupported('extend by a symbolic sequence')
        if name == 'insert':
            if p.kind == 'conc' and isinstance(args[0], int):
                p.items.insert(args[0], args[1])
                return None
            if args[0] == 0 and p.kind == 'fn':
                o.payload = self.fn_concat([ListP('conc', items=[args[1]]), p])
                return None
            if args[0] == 0:
                self.stored(o, args[1])
                o.payload = ListP('seq', seq=z3.Concat(z3.Unit(self.box(args[1])), self.seq_of(o)))
                return None
            raise Unsupported('insert')
        if name == 'pop':
            h = o.ghost.get('pop')
            if h is not None:
                h(self, o)
            i = args[0] if args else -1
            k, t = self.list_index(o, i)
            if k == 'conc':
                return p.items.pop(t)
            if p.kind == 'seq':
                n = z3.Length(p.seq)
                v = self.elem(p.seq[t], p)
                p.seq = z3.simplify(z3.Concat(z3.SubSeq(p.seq, 0, t), z3.SubSeq(p.seq, t + 1, n - t - 1)))
                return v
            if p.kind == 'tup':
                if args:
                    raise Unsupported('pop(i)')
                vals = tuple(SInt(z3.Select(a, p.n - 1)) for a in p.arrs)
                p.n = p.n - 1
                return vals if p.k else vals[0]
            if p.kind == 'fn':
                v = self.list_elem(p, t)
                o.payload = self.fn_cut(p, t)
                return v
            raise Unsupported('pop')
        if name == 'remove':
            if p.kind == 'conc':
                for i, x in enumerate(p.items):
                    if self.branch(self.eq(x, args[0])):
                        del p.items[i]
                        return None
                self.throw('ValueError', 'not in list')
            if p.kind == 'fn':
                w = self.fn_find(p, args[0])
                if w is None:
                    self.throw('ValueError', 'not in list')
                o.payload = self.fn_cut(p, w)
                return None
            raise Unsupported('remove')
        if name == 'index' and p.kind == 'fn':
            w = self.fn_find(p, args[0])
            if w is None:
                self.throw('ValueError', 'not in list')
            return SInt(w)
        if name == 'reverse' and p.kind == 'fn':
            o.payload = self.fn_map(p, p.n, lambda k: p.n - 1 - k)
            return None
        if name == 'index':
            if p.kind == 'conc':
                for i, x in enumerate(p.items):
                    if self.branch(self.eq(x, args[0])):
                        return i
                self.throw('ValueError', 'not in list')
            if p.kind == 'seq':
                x = z3.Unit(self.box(args[0]))
                self.throw_if(z3.Not(z3.Contains(p.seq, x)), 'ValueError', 'not in list')
                return SInt(z3.IndexOf(p.seq, x, 0))
            raise Unsupported('index')
        if name == 'copy':
            return Obj(self.builtin_classes['list'], p.copy())
        if name == 'count' and p.kind == 'conc':
            t = z3.IntVal(0)
            for x in p.items:
                t = t + z3.If(self.bt(self.eq(x, args[0])), 1, 0)
            return self.mkint(t)
        if name == 'reverse' and p.kind == 'conc':
            p.items.reverse()
            return None
        if name == 'clear':
            o.payload = ListP('conc', items=[])
            return None
        raise Unsupported('list.' + name)

    # ------------------------------------------------------------------------ dicts
    def dict_key(self, k):
        if isinstance(k, (str, int, type(None))):
            return k
        s = self.strval(k) if not isinstance(k, Sym) else None
        if isinstance(s, str):
            return s
        return None

    def dict_has(self, o, k):
        p = o.payload
        c = self.dict_key(k)
        if c is not None or k is None:
            if c in p.items:
                return True
            if p.base is None or c in p.removed:
                if any(not isinstance(x, (str, int, type(None))) for x in p.items):
                    raise Unsupported('dict with symbolic keys')
                return False
            return p.base.has(self, k)
        if p.base is None:
            return self.any_([self.eq(k, x) for x in p.items])
        if p.items or p.removed:
            raise Unsupported('symbolic key')
        return p.base.has(self, k)

    def dict_get(self, o, k, default=NotImplemented):
        p = o.payload
        c = self.dict_key(k)
        if c is not None or k is None:
            if c in p.items:
                return p.items[c]
            if p.base is None or c in p.removed:
                if default is NotImplemented:
                    self.throw('KeyError', k)
                return default
            if self.branch(p.base.has(self, k)):
                return p.base.get(self, k)
            if default is NotImplemented:
                self.throw('KeyError', k)
            return default
        if p.base is None:
            for x, v in p.items.items():
                if self.branch(self.eq(k, x)):
                    return v
            if default is NotImplemented:
                self.throw('KeyError', k)
            return default
        if p.items or p.removed:
            raise Unsupported('symbolic key')
        if self.branch(p.base.has(self, k)):
            return p.base.get(self, k)
        if default is NotImplemented:
            self.throw('KeyError', k)
        return default

    def dict_set(self, o, k, v):
        self.wrote(o, 'payload')
        c = self.dict_key(k)
        p = o.payload
        if c is None and k is not None:
            if p.base is not None and hasattr(p.base, 'set') and not p.items:
                p.base = p.base.set(self, k, v)
                return
            if p.base is None and not p.items and getattr(self, 'sym_maps', False):
                p.base = Map.empty(self).set(self, k, v)
                p.removed = set()
                return
            h = getattr(self, 'dict_symkey', None)
            if h is not None and h(self, o, k, v):
                return
            raise Unsupported('symbolic key assigned')
        p.items[c] = v
        p.removed.discard(c)

    def dict_method(self, o, name, args, kw):
        p = o.payload
        if name == 'get':
            return self.dict_get(o, args[0], args[1] if len(args) > 1 else None)
        if name == 'update':
            for a in args:
                self.dict_update(o, a)
            for k, v in kw.items():
                self.dict_set(o, k, v)
            return None
        if name == 'clear':
            self.wrote(o, 'payload')
            o.payload = DictP()
            return None
        if name == 'copy':
            q = DictP(p.items, p.base)
            q.removed = set(p.removed)
            return Obj(self.builtin_classes['dict'], q)
        if p.base is None:
            if name == 'items':
                return Obj(self.builtin_classes['list'], ListP('conc', items=[(k, v) for k, v in p.items.items()]))
            if name == 'keys':
                return Obj(self.builtin_classes['list'], ListP('conc', items=list(p.items)))
            if name == 'values':
                return Obj(self.builtin_classes['list'], ListP('conc', items=list(p.items.values())))
            if name == 'pop':
                c = self.dict_key(args[0])
                if c in p.items:
                    self.wrote(o, 'payload')
                    return p.items.pop(c)
                if len(args) > 1:
                    return args[1]
                self.throw('KeyError', args[0])
            if name == 'setdefault':
                c = self.dict_key(args[0])
                if c not in p.items:
                    self.dict_set(o, args[0], args[1] if len(args) > 1 else None)
                return p.items[c]
        h = getattr(p.base, 'method', None)
        if h is not None:
            return h(self, o, name, args, kw)
        raise Unsupported('dict.' + name)

    def dict_update(self, o, a):
        if isinstance(a, Obj) and isinstance(a.payload, DictP):
            self.wrote(o, 'payload')
            p, q = o.payload, a.payload
            if q.base is None:
                for k, v in q.items.items():
                    p.items[k] = v
                    p.removed.discard(k)
                return
            h = getattr(self, 'dict_update_hook', None)
            if h is not None and h(self, o, a):
                return
            if not p.items and p.base is None:
                p.items = dict(q.items)
                p.base = q.base
                p.removed = set(q.removed)
                return
        h = getattr(self, 'dict_update_hook', None)
        if h is not None and h(self, o, a):
            self.wrote(o, 'payload')
            return
        raise Unsupported('dict.update')

    # ------------------------------------------------------------------ items, attributes
    def getitem(self, o, k):
        if isinstance(o, Obj):
            m = self.find(o.cls, '__getitem__')
            if isinstance(m, Func):
                if isinstance(k, Slice) and False:
                    pass
                return self.call(m, [o, k])
            return self.base_getitem(o, k)
        s = self.strval(o)
        if s is not None:
            return self.str_slice(s, k) if isinstance(k, Slice) else self.str_index(s, k)
        if isinstance(o, tuple):
            if isinstance(k, Slice):
                return o[slice(k.start, k.stop, k.step)]
            if isinstance(k, int):
                if not -len(o) <= k < len(o):
                    self.throw('IndexError', 'tuple index out of range')
                return o[k]
        if isinstance(o, dict):
            c = self.dict_key(k)
            if c in o:
                return o[c]
            self.throw('KeyError', k)
        if isinstance(o, Sym):
            h = getattr(self, 'sym_getitem', None)
            if h is not None:
                return h(self, o, k)
        if o is None:
            self.throw('TypeError', "'NoneType' object is not subscriptable")
        raise Unsupported('subscript of %r' % (o,))

    def base_getitem(self, o, k):
        p = o.payload
        if 'getitem' in o.ghost:
            return o.ghost['getitem'](self, o, k)
        if isinstance(p, (str, SStr)):
            return self.str_slice(p, k) if isinstance(k, Slice) else self.str_index(p, k)
        if isinstance(p, ListP):
            return self.list_get(o, k)
        if isinstance(p, DictP):
            return self.dict_get(o, k)
        raise Unsupported('subscript of ' + o.cls.name)

    def setitem(self, o, k, v):
        if isinstance(o, Obj):
            m = self.find(o.cls, '__setitem__')
            if isinstance(m, Func):
                self.call(m, [o, k, v])
                return
            self.base_setitem(o, k, v)
            return
        raise Unsupported('item assignment to %r' % (o,))

    def base_setitem(self, o, k, v):
        if 'setitem' in o.ghost:
            return o.ghost['setitem'](self, o, k, v)
        if isinstance(o.payload, ListP):
            return self.list_set(o, k, v)
        if isinstance(o.payload, DictP):
            return self.dict_set(o, k, v)
        raise Unsupported('item assignment')

    def delitem(self, o, k):
        if isinstance(o, Obj):
            m = self.find(o.cls, '__delitem__')
            if isinstance(m, Func):
                return self.call(m, [o, k])
            return self.base_delitem(o, k)
        raise Unsupported('del item')

    def base_delitem(self, o, k):
        p = o.payload
        if 'delitem' in o.ghost:
            return o.ghost['delitem'](self, o, k)
        if isinstance(p, ListP):
            self.wrote(o, 'payload')
            if isinstance(k, Slice):
                if p.kind == 'conc' and all(x is None or isinstance(x, int) for x in (k.start, k.stop, k.step)):
                    del p.items[slice(k.start, k.stop, k.step)]
                    return
                if p.kind == 'fn' and k.step in (None, 1):
                    a = self.norm_index(k.start, p.n, z3.IntVal(0))
                    b = self.norm_index(k.stop, p.n, p.n)
                    b = z3.If(a <= b, b, a)
                    o.payload = self.fn_concat([self.fn_map(p, a, lambda i: i), self.fn_map(p, p.n - b, lambda i: i + b)])
                    return
                s = self.seq_of(o)
                n = z3.Length(s)
                a = self.norm_index(k.start, n, z3.IntVal(0))
                b = self.norm_index(k.stop, n, n)
                o.payload = ListP('seq', seq=z3.Concat(z3.SubSeq(s, 0, a), z3.SubSeq(s, b, n - b)))
                return
            kk, t = self.list_index(o, k)
            if kk == 'conc':
                del p.items[t]
                return
            if p.kind == 'fn':
                o.payload = self.fn_cut(p, t)
                return
            s = self.seq_of(o)
            n = z3.Length(s)
            o.payload = ListP('seq', seq=z3.Concat(z3.SubSeq(s, 0, t), z3.SubSeq(s, t + 1, n - t - 1)))
            return
        if isinstance(p, DictP):
            self.wrote(o, 'payload')
            c = self.dict_key(k)
            if c in p.items:
                del p.items[c]
                p.removed.add(c)
                return
            if p.base is None:
                self.throw('KeyError', k)
        raise Unsupported('del item')

    def getattr(self, o, name):
        if isinstance(o, Obj):
            if name in o.fields:
                return o.fields[name]
            if name == '__class__':
                return o.cls
            if name == '__dict__':
                d = Obj(self.builtin_classes['dict'], DictP(o.fields))
                return d
            m = self.find(o.cls, name)
            if m is not None:
                if isinstance(m, Func):
                    return m if m.kind == 'staticmethod' else Bound(m, o.cls if m.kind == 'classmethod' else o)
                return m
            h = self.lazy_fields.get(o.cls.name) if hasattr(self, 'lazy_fields') else None
            if h is not None:
                v = h(self, o, name)
                if v is not NotImplemented:
                    if not o.ghost.get('volatile'):
                        o.fields[name] = v
                    return v
            return self.base_method(o, name)
        if isinstance(o, Sym):
            return self.sym_getattr(o, name)
        if isinstance(o, Func):
            if name in o.attrs:
                return o.attrs[name]
            if name == '__name__':
                return o.name
            h = getattr(self, 'func_attr', None)
            if h is not None:
                v = h(self, o, name)
                if v is not NotImplemented:
                    o.attrs[name] = v
                    return v
            self.throw('AttributeError', "'function' object has no attribute '%s'" % name)
        if isinstance(o, Class):
            if name == '__name__':
                return o.name
            m = self.find(o, name)
            if m is not None:
                return Bound(m, o) if isinstance(m, Func) and m.kind == 'classmethod' else m
            return self.class_attr(o, name)
        if isinstance(o, LibModule):
            return self.lib_attr(o, name)
        if isinstance(o, Slice):
            return getattr(o, name)
        if isinstance(o, Builtin):
            if name in o.attrs:
                return o.attrs[name]
        if isinstance(o, (str, SStr)):
            return self.base_method(o, name)
        if isinstance(o, Regex):
            return Builtin('re.' + name, lambda I, a, kw: I.regex_call(o, name, a, kw))
        if o is None:
            self.throw('AttributeError', "'NoneType' object has no attribute '%s'" % name)
        if isinstance(o, tuple) and name in ('index', 'count'):
            raise Unsupported('tuple.' + name)
        if isinstance(o, (int, SInt, bool, SBool)) and name in ('pos', 'input_file', 'ast', 'loc', 'atom', 'fn'):
            self.throw('AttributeError', 'int.' + name)
        if isinstance(o, frozenset):
            return Builtin('frozenset.' + name, lambda I, a, kw: getattr(o, name)(*a))
        raise Unsupported('attribute %s of %r' % (name, o))

    def sym_getattr(self, o, name):
        if name in o.fields:
            return o.fields[name]
        h = getattr(self, 'sym_field', None)
        if h is not None:
            v = h(self, o, name)
            if v is not NotImplemented:
                return v
        if self.sym_str(o) is not None:
            return self.base_method(o, name)
        raise Unsupported('attribute %s of an unknown object' % name)

    def setattr(self, o, name, v):
        if isinstance(o, Obj):
            self.wrote(o, name)
            o.fields[name] = v
            return
        if isinstance(o, Func):
            self.wrote(o, name)
            o.attrs[name] = v
            return
        if isinstance(o, Sym):
            hook = getattr(self, 'on_setattr', None)
            if hook:
                hook(self, o, name, v)
            o.fields[name] = v
            return
        if isinstance(o, Class) and getattr(self, 'class_attrs', False):
            o.attrs[name] = v
            return
        raise Unsupported('attribute assignment to %r' % (o,))

    def class_attr(self, c, name):
        """Attribute of a builtin class, e.g. str.__new__ or list.append."""
        b = self.builtin_classes
        if name == '__new__':
            def new(I, a, kw):
                return I.base_new_of(a[0], a[1:], kw)
            return Builtin(c.name + '.__new__', new)
        if name == '__init__':
            def init(I, a, kw):
                I.base_init(a[0], a[1:], kw)
            return Builtin(c.name + '.__init__', init)
        if name == '__getitem__':
            return Builtin('getitem', lambda I, a, kw: I.base_getitem(a[0], a[1]) if isinstance(a[0], Obj) else I.getitem(a[0], a[1]))
        if name == '__setitem__':
            return Builtin('setitem', lambda I, a, kw: I.base_setitem(a[0], a[1], a[2]))
        if name == '__delitem__':
            return Builtin('delitem', lambda I, a, kw: I.base_delitem(a[0], a[1]))
        if name == '__contains__':
            def cont(I, a, kw):
                p = a[0].payload
                if 'contains' in a[0].ghost:
                    return a[0].ghost['contains'](I, a[0], a[1])
                if isinstance(p, DictP):
                    return I.dict_has(a[0], a[1])
                return I.contains(Obj(I.builtin_classes['list'], p), a[1])
            return Builtin('contains', cont)
        if name == '__mro__':
            return tuple(c.mro)

        def unbound(I, a, kw):
            return I.call(I.base_method(a[0], name), a[1:], kw)
        return Builtin(c.name + '.' + name, unbound)

    def base_new_of(self, cls, args, kw):
        """B.__new__( cls, ... ) for the builtin base B of cls."""
        for c in cls.mro:
            if c.builtin and c.name in self.constructors and c.name != 'object':
                return self.wrap(cls, self.constructors[c.name](self, c, list(args), kw))
        return Obj(cls)

    def base_init(self, o, args, kw):
        b = self.builtin_classes
        if o.cls.issub(b['list']):
            self.wrote(o, 'payload')
            l = self.constructors['list'](self, b['list'], list(args), kw)
            o.payload = l.payload
        elif o.cls.issub(b['dict']):
            self.wrote(o, 'payload')
            l = self.constructors['dict'](self, b['dict'], list(args), kw)
            o.payload = l.payload

    def base_method(self, o, name):
        """Method of a builtin type."""
        if isinstance(o, Obj):
            h = o.ghost.get('methods', {}).get(name)
            if h is not None:
                return Builtin(name, lambda I, a, kw: h(I, o, a, kw))
            if isinstance(o.payload, ListP):
                return Builtin('list.' + name, lambda I, a, kw: I.list_method(o, name, a, kw))
            if isinstance(o.payload, DictP):
                return Builtin('dict.' + name, lambda I, a, kw: I.dict_method(o, name, a, kw))
            if o.cls.name == 'set' or isinstance(o.payload, frozenset) or (isinstance(o.payload, z3.ExprRef)):
                return Builtin('set.' + name, lambda I, a, kw: I.set_method(o, name, a, kw))
        s = self.strval(o)
        if s is not None:
            if name in STR_METHODS:
                return Builtin('str.' + name, lambda I, a, kw: str_method(I, name, s, a, kw))
            if hasattr('', name):
                raise Unsupported('str.' + name)
        if isinstance(o, Obj):
            if o.cls.issub(self.builtin_classes['BaseException']) and name == 'args':
                return ()
            known = isinstance(o.payload, (ListP, DictP, str, SStr)) or o.cls.module is not None
            if known:
                self.throw('AttributeError', "'%s' object has no attribute '%s'" % (o.cls.name, name))
        if isinstance(o, (str, SStr)):
            self.throw('AttributeError', 'str.' + name)
        raise Unsupported('method %s of %r' % (name, o))

    def set_method(self, o, name, args, kw):
        if name == 'add':
            self.wrote(o, 'payload')
            if isinstance(o.payload, frozenset) and isinstance(args[0], (int, str)):
                o.payload = o.payload | {args[0]}
                return None
            if isinstance(o.payload, z3.ExprRef):
                o.payload = z3.Store(o.payload, self.set_key(o, args[0]), z3.BoolVal(True))
                return None
            if isinstance(o.payload, frozenset):
                # becomes a symbolic set of integers or of boxed values
                self.lift_set(o, args[0])
                o.payload = z3.Store(o.payload, self.set_key(o, args[0]), z3.BoolVal(True))
                return None
        raise Unsupported('set.' + name)

    def lift_set(self, o, sample):
        srt = IntS if self.is_int(sample) else U
        t = z3.K(srt, z3.BoolVal(False))
        for x in o.payload:
            t = z3.Store(t, self.it(x) if srt is IntS else self.box(x), z3.BoolVal(True))
        o.payload = t

    def set_key(self, o, x):
        if o.payload.sort().domain() == IntS:
            return self.it(x)
        return self.box(x)

    def set_contains(self, o, x):
        return self.mkbool(z3.Select(o.payload, self.set_key(o, x)))

    # ------------------------------------------------------------------------- operators
    def binop(self, op, a, b):
        sa, sb = self.strval(a), self.strval(b)
        if isinstance(op, ast.Mod) and sa is not None:
            return self.format(sa, b)
        if isinstance(op, ast.Add):
            if sa is not None and sb is not None:
                return self.concat(sa, sb)
            if isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
            if isinstance(a, Obj) and isinstance(b, Obj) and isinstance(a.payload, ListP) and isinstance(b.payload, ListP):
                if a.payload.kind == 'conc' and b.payload.kind == 'conc':
                    return self.new_list(a.payload.items + b.payload.items)
                if 'fn' in (a.payload.kind, b.payload.kind):
                    return Obj(self.builtin_classes['list'], self.fn_concat([a.payload, b.payload]))
                return Obj(self.builtin_classes['list'], ListP('seq', seq=z3.Concat(self.seq_of(a), self.seq_of(b))))
            if sa is not None or sb is not None:
                o = b if sa is not None else a
                if not isinstance(o, Sym):
                    self.throw('TypeError', 'can only concatenate str')
        if isinstance(op, ast.Mult) and (sa is not None or sb is not None):
            s, n = (sa, b) if sa is not None else (sb, a)
            if isinstance(s, str) and isinstance(n, int):
                return s * n
            if isinstance(s, str):
                t = self.it(n)
                ln = z3.If(t > 0, t * len(s), z3.IntVal(0))
                f = z3.Function('repeat', U, IntS, U)
                return SStr([OStr(f(self.boxS(z3.StringVal(s)), t), z3.simplify(ln))])
            raise Unsupported('string repetition')
        if isinstance(op, ast.BitOr):
            if isinstance(a, (frozenset, set)) and isinstance(b, (frozenset, set)):
                return frozenset(a | b)
        num = (int, SInt, bool, SBool)

        def isnum(x):
            return isinstance(x, num) or (isinstance(x, Obj) and self.is_int(x.payload))
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            try:
                return PYOPS[type(op)](a, b)
            except KeyError:
                raise Unsupported('operator')
            except ZeroDivisionError:
                self.throw('ZeroDivisionError')
        if isinstance(a, SClock) or isinstance(b, SClock):
            a, b = SClock.units(a), SClock.units(b)
            if isinstance(op, (ast.Add, ast.Sub)) and isnum(a) and isnum(b):
                x, y = self.it(a), self.it(b)
                return SClock(x + y if isinstance(op, ast.Add) else x - y)
            raise Unsupported('arithmetic of times')
        if isnum(a) and isnum(b):
            x, y = self.it(a), self.it(b)
            if isinstance(op, ast.BitAnd):
                for m, o in ((a, y), (b, x)):
                    if isinstance(m, int) and m >= 0 and m & (m + 1) == 0:
                        return self.mkint(o % (m + 1))
            if isinstance(op, ast.Add):
                return self.mkint(x + y)
            if isinstance(op, ast.Sub):
                return self.mkint(x - y)
            if isinstance(op, ast.Mult):
                return self.mkint(x * y)
            if isinstance(op, ast.LShift) and isinstance(b, int):
                return self.mkint(x * (1 << b))
            if isinstance(op, (ast.FloorDiv, ast.Mod)) and isinstance(b, int) and b > 0:
                return self.mkint(x / y if isinstance(op, ast.FloorDiv) else x % y)
            if isinstance(op, ast.RShift) and isinstance(b, int):
                return self.mkint(x / z3.IntVal(1 << b))
            raise Unsupported('integer operator ' + type(op).__name__)
        if (a is None or b is None) and not isinstance(a, Sym) and not isinstance(b, Sym):
            self.throw('TypeError', 'unsupported operand')
        h = getattr(self, 'binop_other', None)
        if h is not None:
            return h(self, op, a, b)
        raise Unsupported('operator %s of %r, %r' % (type(op).__name__, a, b))

    # ---------------------------------------------------------------------------- iteration
    def iterate(self, v):
        """list of values (concrete length) or IterSrc."""
        if isinstance(v, IterSrc) or isinstance(v, list):
            return v
        if isinstance(v, tuple):
            return list(v)
        if isinstance(v, (frozenset, set)):
            return sorted(v, key=repr)
        if isinstance(v, dict):
            return list(v)
        if isinstance(v, str):
            return list(v)
        if isinstance(v, Obj):
            if 'iter' in v.ghost:
                return v.ghost['iter'](self, v)
            h = getattr(self, 'iter_hook', None)
            if h is not None:
                r = h(self, v)
                if r is not NotImplemented:
                    return r
            m = self.find(v.cls, '__iter__')
            if isinstance(m, Func):
                raise Unsupported('__iter__')
            p = v.payload
            if isinstance(p, ListP):
                if p.kind == 'conc':
                    return list(p.items)
                q = p.copy()
                return IterSrc(self.it(self.list_len(v)), lambda k: self.list_elem(q, k), 'list')
            if isinstance(p, DictP):
                if p.base is None:
                    return list(p.items)
                h = getattr(p.base, 'iter', None)
                if h is not None:
                    return h(self, v)
                raise Unsupported('iteration over a symbolic dict')
            if isinstance(p, frozenset):
                return sorted(p, key=repr)
        s = self.strval(v)
        if s is not None:
            if isinstance(s, str):
                return list(s)
            w = self.view(s)
            if w is not None:
                return IterSrc(w.b - w.a, lambda k: SStr([View(w.text, w.a + k, w.a + k + 1)]), 'str')
        if isinstance(v, Sym):
            h = getattr(self, 'iter_sym', None)
            if h is not None:
                return h(self, v)
        raise Unsupported('iteration over %r' % (v,))

    # ----------------------------------------------------------------------------- with
    def with_enter(self, m):
        h = m.ghost.get('enter') if isinstance(m, Obj) else None
        if h is None:
            raise Unsupported('with')
        return h(self, m)

    def with_exit(self, m):
        h = m.ghost.get('exit')
        if h is not None:
            h(self, m)

    # ------------------------------------------------------------------------------ regex
    def regex_call(self, rx, name, a, kw):
        s = self.strval(a[0])
        if s is None:
            raise Unsupported('regex on a non-string')
        flags = rx.flags
        if isinstance(s, str) and len(a) == 1:
            m = getattr(re.compile(rx.pattern, flags), name)(s)
            return None if m is None else self.match_const(m)
        if lang_.has(s):
            r = lang_.regex(self, rx, name, s, a)
            if r is not NotImplemented:
                return r
        h = getattr(self, 'regex_hook', None)
        if h is not None:
            r = h(self, rx, name, s, a)
            if r is not NotImplemented:
                return r
        self.imprecise()
        lo, hi = re._parser.parse(rx.pattern, flags).getwidth()
        track = name == 'match' and len(a) == 1 and self.ghost.get('track_rx')
        if self.choose(2) == 1:
            if track:
                self.ghost.setdefault('rx', []).append((rx, self.view(s), None))
            return None
        n = self.it(self.slen(s))
        pos = self.it(a[1]) if len(a) > 1 else z3.IntVal(0)
        if name == 'match':
            st = pos
            e = self.fint('m.end').t
            self.assume(z3.And(st + lo <= e, e <= n))
        elif name == 'search':
            st = self.fint('m.start').t
            e = self.fint('m.end').t
            self.assume(z3.And(pos <= st, st + lo <= e, e <= n))
        else:
            raise Unsupported('re.' + name)
        fs = rx_.first_set(rx.pattern, flags)
        w = self.view(s)
        if fs is not None and len(fs) < 40 and w is not None:
            self.assume(in_ranges(z3.Select(w.text.arr, w.a + st), fs))
        if track and w is not None:
            base = rxstr.Base(rx, w, e)
            self.ghost.setdefault('rx', []).append((rx, w, base))
            return self.match_obj(s, st, e, re.compile(rx.pattern, flags).groups, base)
        return self.match_obj(s, st, e, re.compile(rx.pattern, flags).groups)

    def match_obj(self, s, st, e, ngroups, base=None):
        m = Obj(self.builtin_classes['Match'])
        groups = {}

        def group(I, o, a, kw):
            k = a[0] if a else 0
            if k == 0:
                r = I.str_slice(s, Slice(SInt(st), SInt(e), None))
                if base is not None:
                    r = rxstr.RStr(r.ps, base, ())
                return r
            return span(I, k)[0]

        def span(I, k):
            if k not in groups:
                if I.choose(2) == 1:
                    groups[k] = (None, z3.IntVal(-1), z3.IntVal(-1))
                else:
                    x, y = I.fint('g.start').t, I.fint('g.end').t
                    I.assume(z3.And(st <= x, x <= y, y <= e))
                    groups[k] = (I.str_slice(s, Slice(SInt(x), SInt(y), None)), x, y)
            return groups[k]
        m.ghost['methods'] = {
            'group': group,
            'end': lambda I, o, a, kw: SInt(e) if not a or a[0] == 0 else SInt(span(I, a[0])[2]),
            'start': lambda I, o, a, kw: SInt(st) if not a or a[0] == 0 else SInt(span(I, a[0])[1]),
        }
        m.ghost['span'] = (st, e)
        return m

    def match_const(self, mm):
        m = Obj(self.builtin_classes['Match'])
        m.ghost['methods'] = {
            'group': lambda I, o, a, kw: mm.group(*a),
            'end': lambda I, o, a, kw: mm.end(*a),
            'start': lambda I, o, a, kw: mm.start(*a),
        }
        return m

    # ---------------------------------------------------------------------------- library
    def lib_attr(self, m, name):
        key = m.name + '.' + name
        if key in self.overrides:
            return self.overrides[key]
        if key in ('future.utils.native_str', 'builtins.str', 'past.builtins.basestring'):
            return self.builtin_classes['str']
        if key in LIBRARY:
            v = LIBRARY[key]
            return Builtin(key, v) if callable(v) else v
        h = getattr(self, 'lib_hook', None)
        if h is not None:
            v = h(self, key)
            if v is not None:
                return v
        if key in ('os.path',):
            return LibModule(key)
        raise Unsupported('library function ' + key)


def zunescape(s):
    return re.sub(r'\\u\{([0-9a-fA-F]+)\}', lambda m: chr(int(m.group(1), 16)), s)


import operator as _op
PYOPS = {ast.Add: _op.add, ast.Sub: _op.sub, ast.Mult: _op.mul, ast.Div: _op.truediv, ast.FloorDiv: _op.floordiv,
         ast.Mod: _op.mod, ast.LShift: _op.lshift, ast.RShift: _op.rshift, ast.BitOr: _op.or_, ast.BitAnd: _op.and_,
         ast.Pow: _op.pow, ast.BitXor: _op.xor}


# ------------------------------------------------------------------------- str methods
def s_startswith(I, s, a, kw):
    p = I.strval(a[0])
    if p is None:
        I.throw('TypeError', 'startswith')
    if isinstance(s, str) and isinstance(p, str):
        return s.startswith(p)
    if isinstance(p, str):
        v = I.view(s)
        if v is not None or isinstance(s, SStr) and isinstance(s.ps[0], View) and I.must(s.ps[0].b - s.ps[0].a >= len(p)):
            v = v or s.ps[0]
            return I.mkbool(z3.And([v.b - v.a >= len(p)] + [z3.Select(v.text.arr, z3.simplify(v.a + k)) == ord(c) for k, c in enumerate(p)]))
        if isinstance(s, SStr) and isinstance(s.ps[0], str) and len(s.ps[0]) >= len(p):
            return s.ps[0].startswith(p)
    zs, zp = I.zstr(s), I.zstr(p)
    if zs is not None and zp is not None:
        return I.mkbool(z3.PrefixOf(zp, zs))
    I.imprecise()
    return I.fbool('startswith')


def s_endswith(I, s, a, kw):
    p = I.strval(a[0])
    if isinstance(s, str) and isinstance(p, str):
        return s.endswith(p)
    v = I.view(s)
    if v is not None and isinstance(p, str):
        return I.mkbool(z3.And([v.b - v.a >= len(p)] + [z3.Select(v.text.arr, z3.simplify(v.b - len(p) + k)) == ord(c) for k, c in enumerate(p)]))
    zs, zp = I.zstr(s), I.zstr(p)
    if zs is not None and zp is not None:
        return I.mkbool(z3.SuffixOf(zp, zs))
    I.imprecise()
    return I.fbool('endswith')


def s_find(I, s, a, kw):
    p = I.strval(a[0])
    if isinstance(s, str) and isinstance(p, str) and all(isinstance(x, int) for x in a[1:]):
        return s.find(p, *a[1:])
    n = I.it(I.slen(s))
    start = I.norm_index(a[1], n, z3.IntVal(0)) if len(a) > 1 else z3.IntVal(0)
    if len(a) > 2 or kw:
        raise Unsupported('str.find with an end')
    v = I.view(s)
    if v is not None and isinstance(p, str) and len(p) == 1:
        r = I.fint('find').t
        j = z3.Int(I.fresh_name('j'))
        c = ord(p)
        found = z3.And(start <= r, r < n, z3.Select(v.text.arr, v.a + r) == c)
        stop = z3.If(r == -1, n, r)
        I.assume(z3.Or(r == -1, found))
        I.assume(z3.ForAll([j], z3.Implies(z3.And(v.a + start <= j, j < v.a + stop), z3.Select(v.text.arr, j) != c),
                           patterns=[z3.Select(v.text.arr, j)]))
        if len(a) > 1:
            # an explicit start after the end finds nothing (kept by norm_index: start <= n)
            pass
        return SInt(r)
    zs, zp = I.zstr(s), I.zstr(p)
    if zs is not None and zp is not None:
        at = z3.IndexOf(zs, zp, start)
        if len(a) > 1 and not (isinstance(p, str) and p):
            at = z3.If(I.it(a[1]) > n, z3.IntVal(-1), at)
        return I.mkint(at)
    I.imprecise()
    r = I.fint('find').t
    I.assume(z3.Or(r == -1, z3.And(start <= r, r + I.it(I.slen(p)) <= n)))
    return SInt(r)


def opaque_map(name, minlen=0):
    def f(I, s, a, kw):
        if isinstance(s, str) and all(isinstance(x, (str, int, type(None))) for x in a):
            return getattr(s, name)(*a)
        I.imprecise()
        if kw or not all(isinstance(x, (str, int, type(None))) for x in a):
            raise Unsupported('%s with unknown arguments' % name)
        fu = z3.Function('str.' + name + ''.join('|%r' % (x,) for x in a), U, U)
        u = fu(I.box(s))
        n = I.strlenU(u)
        I.assume(n >= 0)
        return SStr([OStr(u, n)])
    return f


def s_strip(which):
    def f(I, s, a, kw):
        if isinstance(s, str) and all(isinstance(x, (str, type(None))) for x in a):
            return getattr(s, which)(*a)
        v = I.view(s)
        if v is not None and (not a or a[0] is None or isinstance(a[0], str)):
            rs = PYSPACE if not a or a[0] is None else ranges([ord(c) for c in a[0]])
            x, y = v.a, v.b
            if which in ('strip', 'lstrip'):
                x = I.fint('lstrip').t
            if which in ('strip', 'rstrip'):
                y = I.fint('rstrip').t
            j = z3.Int(I.fresh_name('j'))
            arr = v.text.arr
            I.assume(z3.And(v.a <= x, x <= y, y <= v.b))
            if which in ('strip', 'lstrip'):
                I.assume(z3.ForAll([j], z3.Implies(z3.And(v.a <= j, j < x), in_ranges(z3.Select(arr, j), rs)),
                                   patterns=[z3.Select(arr, j)]))
                I.assume(z3.Or(x == v.b, z3.And(x < y, z3.Not(in_ranges(z3.Select(arr, x), rs)))))
            if which in ('strip', 'rstrip'):
                I.assume(z3.ForAll([j], z3.Implies(z3.And(y <= j, j < v.b), in_ranges(z3.Select(arr, j), rs)),
                                   patterns=[z3.Select(arr, j)]))
                I.assume(z3.Or(z3.And(x == y) if which == 'strip' else y == v.a,
                               z3.And(y > v.a, z3.Not(in_ranges(z3.Select(arr, y - 1), rs)))))
            return SStr([View(v.text, x, y)])
        return opaque_map(which)(I, s, a, kw)
    return f


def s_join(I, s, a, kw):
    v = a[0]
    src = I.iterate(v)
    if isinstance(src, list):
        out = []
        for i, x in enumerate(src):
            xs = I.strval(x)
            if xs is None:
                if isinstance(x, Sym):
                    h = getattr(I, 'join_hook', None)
                    if h is not None:
                        return h(I, s, v)
                    raise Unsupported('join of unknown objects')
                I.throw('TypeError', 'join')
            if i:
                out.append(s)
            out.append(xs)
        r = ''
        for x in out:
            r = I.concat(r, x)
        return r
    h = getattr(I, 'join_hook', None)
    if h is not None:
        return h(I, s, v)
    raise Unsupported('join of a symbolic sequence')


def s_format(I, s, a, kw):
    """str.format() of a literal template with plain fields."""
    if not isinstance(s, str):
        return I.ostr('format')
    out = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(s):
        out.append(lit)
        if field is None:
            continue
        if spec or conv not in (None, 's') or not re.match(r'^\w*$', field):
            return I.ostr('format')
        if field == '':
            field, auto = str(auto), auto + 1
        if field.isdigit():
            if int(field) >= len(a):
                I.throw('IndexError', 'format')
            v = a[int(field)]
        else:
            if field not in kw:
                I.throw('KeyError', field)
            v = kw[field]
        out.extend(I.str_of(v).ps if not isinstance(v, str) else [v])
    return I.mkstr(out)


def n_before(I, text, c, x):
    """The number of characters c of a text before x.  Facts about the function are stated for
    the places asked about, pairwise."""
    f = z3.Function('count!%d!%s' % (c, text.name), IntS, IntS)
    known = I.ghost.get(('counts', text.name, c), ())
    x = z3.simplify(x) if isinstance(x, z3.ExprRef) else z3.IntVal(x)
    if any(z3.eq(x, y) for y in known):
        return f(x)
    if not known:
        known = (z3.IntVal(0),)
        I.assume(f(0) == 0)
    arr = text.arr
    for y in known:
        if z3.eq(x, y):
            continue
        for p, q in ((x, y), (y, x)):
            w = I.fint('w').t
            I.assume(z3.Implies(p <= q, z3.And(f(p) <= f(q), f(q) - f(p) <= q - p)))
            I.assume(z3.Implies(p <= q, z3.Or(f(p) == f(q), z3.And(p <= w, w < q, z3.Select(arr, w) == c))))
            I.assume(z3.Implies(z3.And(p < q, z3.Select(arr, p) == c), f(q) > f(p)))
            I.assume(z3.Implies(z3.And(p < q, z3.Select(arr, q - 1) == c), f(q) > f(p)))
            I.assume(z3.Implies(q == p + 1, f(q) == f(p) + z3.If(z3.Select(arr, p) == c, 1, 0)))
    I.ghost[('counts', text.name, c)] = known + (x,)
    return f(x)


def one_char(I, s, a):
    """(view, code) of a view and of a constant separator of one character."""
    v = I.view(s)
    p = I.strval(a[0]) if a else None
    return (v, ord(p)) if v is not None and isinstance(p, str) and len(p) == 1 else (None, None)


def bounds(I, v, a):
    n = z3.simplify(v.b - v.a)
    lo = I.norm_index(a[1], n, z3.IntVal(0)) if len(a) > 1 else z3.IntVal(0)
    hi = I.norm_index(a[2], n, n) if len(a) > 2 else n
    return z3.simplify(v.a + lo), z3.simplify(v.a + z3.If(lo <= hi, hi, lo))


def s_count(I, s, a, kw):
    if isinstance(s, str) and all(isinstance(x, (str, int, type(None))) for x in a):
        return s.count(*a)
    v, c = one_char(I, s, a)
    if v is None:
        raise Unsupported('str.count')
    lo, hi = bounds(I, v, a)
    return I.mkint(n_before(I, v.text, c, hi) - n_before(I, v.text, c, lo))


def no_char(I, v, c, lo, hi):
    j = z3.Int(I.fresh_name('j'))
    I.assume(z3.ForAll([j], z3.Implies(z3.And(lo <= j, j < hi), z3.Select(v.text.arr, j) != c), patterns=[z3.Select(v.text.arr, j)]))


def s_rfind(I, s, a, kw):
    if isinstance(s, str) and all(isinstance(x, (str, int, type(None))) for x in a):
        return s.rfind(*a)
    v, c = one_char(I, s, a)
    if v is None:
        raise Unsupported('str.rfind')
    lo, hi = bounds(I, v, a)
    r = I.fint('rfind').t
    I.assume(z3.Or(r == -1, z3.And(lo <= v.a + r, v.a + r < hi, z3.Select(v.text.arr, v.a + r) == c)))
    no_char(I, v, c, z3.If(r == -1, lo, v.a + r + 1), hi)
    return SInt(r)


def s_rindex(I, s, a, kw):
    r = s_rfind(I, s, a, kw)
    I.throw_if(I.bt(I.compare(ast.Eq(), r, -1)), 'ValueError', 'substring not found')
    return r


def s_partition(last):
    def f(I, s, a, kw):
        name = 'rpartition' if last else 'partition'
        if isinstance(a[0], str) and not a[0]:
            I.throw('ValueError', 'empty separator')
        if isinstance(s, str) and isinstance(a[0], str):
            return getattr(s, name)(a[0])
        v, c = one_char(I, s, a)
        if v is None:
            raise Unsupported('str.' + name)
        r = (s_rfind if last else s_find)(I, s, a[:1], {})
        t = I.it(r)
        if I.branch(t == -1):
            return ('', '', s) if last else (s, '', '')
        return (SStr([View(v.text, v.a, v.a + t)]), I.strval(a[0]), SStr([View(v.text, v.a + t + 1, v.b)]))
    return f


def split_view(I, v, c):
    """The pieces of a view between the separators: piece k is from S(k) to E(k)."""
    n = z3.simplify(n_before(I, v.text, c, v.b) - n_before(I, v.text, c, v.a) + 1)
    I.assume(n >= 1)
    S, E = z3.Function(I.fresh_name('piece.begin'), IntS, IntS), z3.Function(I.fresh_name('piece.end'), IntS, IntS)
    arr = v.text.arr
    I.assume(z3.And(S(0) == v.a, E(n - 1) == v.b))

    def get(k):
        k = z3.simplify(k) if isinstance(k, z3.ExprRef) else z3.IntVal(k)
        I.assume(z3.And(v.a <= S(k), S(k) <= E(k), E(k) <= v.b))
        I.assume(z3.And(z3.Implies(k == 0, S(k) == v.a), z3.Implies(k > 0, z3.And(S(k) == E(k - 1) + 1, S(k) > v.a, z3.Select(arr, S(k) - 1) == c))))
        I.assume(z3.And(z3.Implies(k == n - 1, E(k) == v.b), z3.Implies(k < n - 1, z3.And(S(k + 1) == E(k) + 1, E(k) < v.b, z3.Select(arr, E(k)) == c))))
        no_char(I, v, c, S(k), E(k))
        I.assume(n_before(I, v.text, c, S(k)) == n_before(I, v.text, c, v.a) + k)
        return SStr([View(v.text, S(k), E(k))])
    return Obj(I.builtin_classes['list'], ListP('fn', n=n, get=get, split=(v, c, S, E)))


def s_split(I, s, a, kw):
    if isinstance(s, str) and all(isinstance(x, (str, int, type(None))) for x in a):
        return I.new_list(s.split(*a))
    v, c = one_char(I, s, a)
    if v is not None and len(a) == 1 and not kw:
        return split_view(I, v, c)
    h = getattr(I, 'split_hook', None)
    if h is not None:
        r = h(I, s, a)
        if r is not NotImplemented:
            return r
    raise Unsupported('split')


def s_splitlines(I, s, a, kw):
    if isinstance(s, str):
        return I.new_list(s.splitlines(*a))
    h = getattr(I, 'splitlines_hook', None)
    if h is not None:
        r = h(I, s, a)
        if r is not NotImplemented:
            return r
    raise Unsupported('splitlines')


def s_replace(I, s, a, kw):
    if len(a) != 2 or kw:
        raise Unsupported('str.replace with a count')
    x, y = I.strval(a[0]), I.strval(a[1])
    if isinstance(s, str) and isinstance(x, str) and isinstance(y, str):
        return s.replace(x, y)
    I.imprecise()
    f = z3.Function('str.replace', U, U, U, U)
    u = f(I.box(s), I.box(x), I.box(y))
    n = I.strlenU(u)
    I.assume(n >= 0)
    return SStr([OStr(u, n)])


def s_lower(I, s, a, kw):
    if isinstance(s, str):
        return s.lower()
    h = getattr(I, 'lower_hook', None)
    if h is not None:
        return h(I, s)
    return opaque_map('lower')(I, s, a, kw)


def s_pred(name):
    def f(I, s, a, kw):
        if isinstance(s, str):
            return getattr(s, name)()
        I.imprecise()
        p = z3.Function('str.' + name, U, z3.BoolSort())
        return SBool(p(I.box(s)))
    return f


def s_index(I, s, a, kw):
    r = s_find(I, s, a, kw)
    I.throw_if(I.bt(I.compare(ast.Eq(), r, -1)), 'ValueError', 'substring not found')
    return r


def s_eq(I, s, a, kw):
    o = I.strval(a[0])
    if o is None:
        raise Unsupported('str.__eq__ with a non-string')
    return I.str_eq(s, o)


def only_const(name):
    def f(I, s, a, kw):
        if isinstance(s, str) and all(isinstance(x, (str, int, type(None))) for x in a):
            r = getattr(s, name)(*a)
            return I.new_list(r) if isinstance(r, list) else r
        raise Unsupported('str.' + name)
    return f


STR_METHODS = {
    'rfind': s_rfind, 'rindex': s_rindex, 'partition': s_partition(False), 'rpartition': s_partition(True), 'rsplit': only_const('rsplit'), 'casefold': only_const('casefold'),
    'count': s_count, 'isdecimal': only_const('isdecimal'), 'zfill': only_const('zfill'), 'expandtabs': only_const('expandtabs'),
    '__eq__': s_eq, '__ne__': lambda I, s, a, kw: I.mkbool(z3.Not(I.bt(s_eq(I, s, a, kw)))),
    '__len__': lambda I, s, a, kw: I.slen(s), '__add__': lambda I, s, a, kw: I.concat(s, I.strval(a[0])),
    '__str__': lambda I, s, a, kw: s, '__contains__': lambda I, s, a, kw: I.contains(s, a[0]),
    '__hash__': lambda I, s, a, kw: I.fint('hash'), '__repr__': lambda I, s, a, kw: I.ostr('repr'),
    'startswith': s_startswith, 'endswith': s_endswith, 'find': s_find, 'strip': s_strip('strip'),
    'lstrip': s_strip('lstrip'), 'rstrip': s_strip('rstrip'), 'join': s_join, 'split': s_split,
    'splitlines': s_splitlines, 'replace': s_replace, 'lower': s_lower, 'upper': opaque_map('upper'),
    'isdigit': s_pred('isdigit'), 'isalpha': s_pred('isalpha'), 'isspace': s_pred('isspace'), 'index': s_index,
    'encode': opaque_map('encode'), 'title': opaque_map('title'), 'capitalize': opaque_map('capitalize'),
    'format': s_format,
    'isidentifier': s_pred('isidentifier'), 'isalnum': s_pred('isalnum'),
}


def str_method(I, name, s, a, kw):
    if lang_.has(s) and lang_.pure(s):
        r = lang_.method(I, s, name, a, kw)
        if r is not NotImplemented:
            return r
    if isinstance(s, rxstr.RStr):
        r = rxstr.method(I, s, name, a, kw)
        if r is not NotImplemented:
            return r
    return STR_METHODS[name](I, s, a, kw)


# --------------------------------------------------------------------------- builtins
def b_len(I, a, kw):
    v = a[0]
    if isinstance(v, Obj):
        m = I.find(v.cls, '__len__')
        if isinstance(m, Func):
            return I.call(m, [v])
        if 'len' in v.ghost:
            return v.ghost['len'](I, v)
        if isinstance(v.payload, ListP):
            return I.list_len(v)
        if isinstance(v.payload, DictP) and v.payload.base is None:
            return len(v.payload.items)
        if isinstance(v.payload, frozenset):
            return len(v.payload)
    s = I.strval(v)
    if s is not None:
        return I.slen(s)
    if isinstance(v, (tuple, frozenset)):
        return len(v)
    if isinstance(v, Sym):
        h = getattr(I, 'len_sym', None)
        if h is not None:
            return h(I, v)
    if v is None or isinstance(v, (int, SInt)):
        I.throw('TypeError', 'object has no len()')
    raise Unsupported('len of %r' % (v,))


def b_isinstance(I, a, kw):
    return I.isinst(a[0], a[1])


def b_ord(I, a, kw):
    s = I.strval(a[0])
    if s is None:
        I.throw('TypeError', 'ord')
    return I.ord_of(s)


def b_chr(I, a, kw):
    if isinstance(a[0], int):
        return chr(a[0])
    return SStr([ZStr(z3.StrFromCode(I.it(a[0])))])


def b_range(I, a, kw):
    if all(isinstance(x, int) for x in a):
        return list(range(*a))
    if len(a) == 1:
        n = I.it(a[0])
        return IterSrc(z3.If(n >= 0, n, z3.IntVal(0)), lambda k: SInt(k), 'range')
    if len(a) == 2 or (len(a) == 3 and a[2] == 1):
        lo, hi = I.it(a[0]), I.it(a[1])
        return IterSrc(z3.If(hi >= lo, hi - lo, z3.IntVal(0)), lambda k: SInt(lo + k), 'range')
    if len(a) == 3 and a[2] == -1:
        lo, hi = I.it(a[0]), I.it(a[1])
        return IterSrc(z3.If(lo >= hi, lo - hi, z3.IntVal(0)), lambda k: SInt(lo - k), 'range')
    raise Unsupported('range')


def b_enumerate(I, a, kw):
    src = I.iterate(a[0])
    st = a[1] if len(a) > 1 else kw.get('start', 0)
    if isinstance(src, list):
        return [(I.mkint(I.it(st) + i), x) for i, x in enumerate(src)]
    return IterSrc(src.n, lambda k: (I.mkint(k + I.it(st)), src.get(k)), 'enumerate')


def b_zip(I, a, kw):
    srcs = [I.iterate(x) for x in a]
    if all(isinstance(s, list) for s in srcs):
        return [tuple(x) for x in zip(*srcs)]
    ns = [z3.IntVal(len(s)) if isinstance(s, list) else s.n for s in srcs]
    n = ns[0]
    for m in ns[1:]:
        n = z3.If(n <= m, n, m)

    def get(k):
        out = []
        for s in srcs:
            if isinstance(s, list):
                raise Unsupported('zip')
            out.append(s.get(k))
        return tuple(out)
    return IterSrc(n, get, 'zip')


def b_reversed(I, a, kw):
    src = I.iterate(a[0])
    if isinstance(src, list):
        return src[::-1]
    return IterSrc(src.n, lambda k: src.get(src.n - 1 - k), 'reversed')


def b_next(I, a, kw):
    g = a[0]
    if isinstance(g, GenObj):
        return g.contract.next(I, g)
    if isinstance(g, IterSrc):
        if len(a) == 2:
            if I.branch(g.n == 0):
                return a[1]
            return g.get(z3.IntVal(0))
        I.throw_if(g.n == 0, 'StopIteration')
        return g.get(z3.IntVal(0))
    if isinstance(g, Obj) and isinstance(g.payload, ListP) and g.payload.kind == 'conc':
        if g.payload.items:
            return g.payload.items.pop(0)
        if len(a) == 2:
            return a[1]
        I.throw('StopIteration')
    raise Unsupported('next of %r' % (g,))


def b_minmax(which):
    def f(I, a, kw):
        if kw:
            raise Unsupported(which)
        if len(a) == 1:
            a = I.iterate(a[0])
            if not isinstance(a, list):
                raise Unsupported(which)
        if all(isinstance(x, (int, float)) for x in a):
            return max(a) if which == 'max' else min(a)
        t = I.it(a[0])
        for x in a[1:]:
            y = I.it(x)
            t = z3.If(y > t, y, t) if which == 'max' else z3.If(y < t, y, t)
        return I.mkint(t)
    return f


def b_anyall(which):
    def f(I, a, kw):
        src = I.iterate(a[0])
        if not isinstance(src, list):
            raise Unsupported(which)
        for x in src:
            b = I.branch_truth(x)
            if b == (which == 'any'):
                return b
        return which != 'any'
    return f


def b_map(I, a, kw):
    src = I.iterate(a[1])
    if isinstance(src, list):
        return I.new_list([I.call(a[0], [x]) for x in src])
    return IterSrc(src.n, lambda k: I.call(a[0], [src.get(k)]), 'map')


def b_getattr(I, a, kw):
    if not isinstance(a[1], str):
        raise Unsupported('getattr')
    try:
        return I.getattr(a[0], a[1])
    except PyRaise as e:
        if len(a) == 3 and e.cls.name == 'AttributeError':
            return a[2]
        raise


def b_setattr(I, a, kw):
    if not isinstance(a[1], str):
        raise Unsupported('setattr')
    I.setattr(a[0], a[1], a[2])


def b_iter(I, a, kw):
    return I.iterate(a[0]) if not isinstance(a[0], (GenObj,)) else a[0]


def b_sum(I, a, kw):
    src = I.iterate(a[0])
    if isinstance(src, list):
        t = z3.IntVal(0)
        for x in src:
            t = t + I.it(x)
        return I.mkint(t)
    raise Unsupported('sum')


def b_repr(I, a, kw):
    v = a[0]
    if isinstance(v, (str, int, float, type(None))):
        return repr(v)
    return I.ostr('repr')


def b_sorted(I, a, kw):
    src = I.iterate(a[0])
    if isinstance(src, list) and all(isinstance(x, (int, str)) for x in src) and not kw:
        return I.new_list(sorted(src))
    h = getattr(I, 'sorted_hook', None)
    if h is not None:
        return h(I, a, kw)
    raise Unsupported('sorted')


def b_globals(I, a, kw):
    return Obj(I.builtin_classes['dict'], DictP({'__file__': '/yupp/pp/yugen.py'}))


def b_print(I, a, kw):
    h = getattr(I, 'print_hook', None)
    if h is not None:
        h(I, a)
    return None


def b_callable(I, a, kw):
    return isinstance(a[0], (Func, Builtin, Class, Bound))


def b_hasattr(I, a, kw):
    try:
        I.getattr(a[0], a[1])
        return True
    except PyRaise as e:
        if e.cls.name == 'AttributeError':
            return False
        raise


def b_abs(I, a, kw):
    if isinstance(a[0], (int, float)):
        return abs(a[0])
    t = I.it(a[0])
    return I.mkint(z3.If(t >= 0, t, -t))


def b_filter(I, a, kw):
    src = I.iterate(a[1])
    if isinstance(src, list):
        out = []
        for x in src:
            r = x if a[0] is None else I.call(a[0], [x])
            if I.branch_truth(r):
                out.append(x)
        return I.new_list(out)
    raise Unsupported('filter')


def b_vars(I, a, kw):
    h = getattr(I, 'vars_hook', None)
    if h is not None:
        return h(I, a[0])
    raise Unsupported('vars')


BUILTINS = {
    'len': b_len, 'isinstance': b_isinstance, 'ord': b_ord, 'chr': b_chr, 'range': b_range, 'enumerate': b_enumerate,
    'zip': b_zip, 'reversed': b_reversed, 'next': b_next, 'max': b_minmax('max'), 'min': b_minmax('min'),
    'any': b_anyall('any'), 'all': b_anyall('all'), 'map': b_map, 'getattr': b_getattr, 'setattr': b_setattr, 'iter': b_iter, 'sum': b_sum,
    'repr': b_repr, 'sorted': b_sorted, 'globals': b_globals, 'print': b_print, 'callable': b_callable,
    'hasattr': b_hasattr, 'abs': b_abs, 'filter': b_filter, 'vars': b_vars,
    'issubclass': lambda I, a, kw: a[0].issub(a[1]),
}


# ----------------------------------------------------------------------- constructors
def c_str(I, cls, a, kw):
    if not a:
        return ''
    v = a[0]
    if isinstance(v, Obj):
        m = I.find(v.cls, '__str__')
        if isinstance(m, Func):
            return I.call(m, [v])
        r = I.find(v.cls, '__repr__')
        if isinstance(r, Func) and not isinstance(v.payload, (str, SStr)):
            return I.ostr('str')
    s = I.str_of(v)
    return I.mkstr(s.ps)


def c_list(I, cls, a, kw):
    if not a:
        return I.new_list()
    v = a[0]
    src = I.iterate(v)
    if isinstance(src, list):
        return I.new_list(src)
    if isinstance(v, Obj) and isinstance(v.payload, ListP):
        return Obj(I.builtin_classes['list'], v.payload.copy())
    return Obj(I.builtin_classes['list'], ListP('fn', n=src.n, get=src.get))


def c_dict(I, cls, a, kw):
    o = Obj(I.builtin_classes['dict'], DictP())
    for x in a:
        if isinstance(x, Obj) and isinstance(x.payload, DictP):
            I.dict_update(o, x)
        elif x is None:
            raise Unsupported('dict(None)')
        else:
            src = I.iterate(x)
            if not isinstance(src, list):
                raise Unsupported('dict of a symbolic sequence')
            for p in src:
                I.dict_set(o, p[0], p[1])
    for k, v in kw.items():
        if k == '**':
            h = getattr(I, 'dict_update_hook', None)
            if h is None or not h(I, o, v):
                raise Unsupported('dict( **x )')
            continue
        I.dict_set(o, k, v)
    return o


def c_set(I, cls, a, kw):
    if not a:
        return Obj(I.builtin_classes['set'], frozenset())
    src = I.iterate(a[0])
    if isinstance(src, list):
        return I.make_set(src)
    raise Unsupported('set')


def c_frozenset(I, cls, a, kw):
    if not a:
        return frozenset()
    src = I.iterate(a[0])
    if isinstance(src, list) and all(isinstance(x, (int, str)) for x in src):
        return frozenset(src)
    raise Unsupported('frozenset')


def c_tuple(I, cls, a, kw):
    if not a:
        return ()
    src = I.iterate(a[0])
    if isinstance(src, list):
        return tuple(src)
    raise Unsupported('tuple of a symbolic sequence')


def c_int(I, cls, a, kw):
    if not a:
        return 0
    v = a[0]
    if isinstance(v, SClock) and len(a) == 1:
        return SClock(v.t - v.t % SClock.SECOND)
    if isinstance(v, (int, SInt, bool, SBool)) and len(a) == 1:
        return I.mkint(I.it(v))
    if isinstance(v, Obj) and I.is_int(v.payload):
        return v.payload
    s = I.strval(v)
    if s is not None:
        if isinstance(s, str) and all(isinstance(x, int) for x in a[1:]):
            try:
                return int(s, *a[1:])
            except ValueError:
                I.throw('ValueError', 'int')
        h = getattr(I, 'int_hook', None)
        if h is not None:
            return h(I, s, a[1:])
        raise Unsupported('int of a symbolic string')
    if isinstance(v, float):
        return int(v)
    raise Unsupported('int of %r' % (v,))


def c_float(I, cls, a, kw):
    v = a[0] if a else 0.0
    s = I.strval(v)
    if s is not None:
        h = getattr(I, 'float_hook', None)
        if h is not None:
            return h(I, s)
        if isinstance(s, str):
            return float(s)
        raise Unsupported('float of a symbolic string')
    if isinstance(v, (int, float)):
        return float(v)
    return SFloat(I.fu('float'))


def c_bool(I, cls, a, kw):
    return I.truth(a[0]) if a else False


def c_type(I, cls, a, kw):
    if len(a) == 1:
        return I.class_of(a[0])
    raise Unsupported('type')


def c_slice(I, cls, a, kw):
    if len(a) == 1:
        return Slice(None, a[0], None)
    return Slice(a[0], a[1], a[2] if len(a) > 2 else None)


CONSTRUCTORS = {
    'str': c_str, 'list': c_list, 'dict': c_dict, 'set': c_set, 'frozenset': c_frozenset, 'tuple': c_tuple,
    'int': c_int, 'float': c_float, 'bool': c_bool, 'type': c_type, 'object': lambda I, cls, a, kw: Obj(cls),
    'slice': c_slice,
}


# ---------------------------------------------------------------------------- library
def l_recompile(I, a, kw):
    fl = a[1] if len(a) > 1 else kw.get('flags', 0)
    if not isinstance(a[0], str) or not isinstance(fl, int):
        raise Unsupported('re.compile')
    return Regex(a[0], int(fl))


def l_raise(I, a, kw):
    c = a[0]
    v = a[1] if len(a) > 1 else kw.get('value')
    if isinstance(c, Class):
        if isinstance(v, Obj) and v.cls.issub(c):
            raise PyRaise(v.cls, v.fields.get('args', ()), obj=v, where=I.lineno)
        if v is None:
            raise PyRaise(c, (), where=I.lineno)
        raise PyRaise(c, v if isinstance(v, tuple) else (v,), where=I.lineno)
    if isinstance(c, Sym):
        raise PyRaise(c, tuple(a[1:2]), where=I.lineno)
    raise Unsupported('raise_')


def l_exc_info(I, a, kw):
    h = I.ghost.get('handling')
    if not h:
        return (None, None, None)
    e = h[-1]
    return (e.cls, I.exc_obj(e), Sym(I.fu('tb'), frozenset(['NoneType'])))


LIBRARY = {
    're.compile': l_recompile,
    're.VERBOSE': int(re.VERBOSE), 're.IGNORECASE': int(re.IGNORECASE), 're.MULTILINE': int(re.MULTILINE),
    're.DOTALL': int(re.DOTALL), 're.I': int(re.I), 're.X': int(re.X),
    'future.utils.raise_': l_raise,
    'sys.exc_info': l_exc_info,
    'sys.setrecursionlimit': lambda I, a, kw: None,
    'sys.tracebacklimit': None,
}
