"""Real file operations, all inside the scratch directory, with a failure or the end of the
run at a chosen operation."""
import builtins
import io
import os


class Crash(BaseException):
    """The run ends here."""


class Faults:
    def __init__(self, at=None, kind=None, watch=None):
        self.at, self.kind, self.watch = at, kind, watch
        self.n = 0
        self.ops = []
        self.dead = False
        self.fired = False

    def step(self, op, path):
        """Called before an operation; returns 'partial' when it should be half done."""
        if self.dead:
            raise Crash()
        p = os.path.abspath(str(path))
        if not p.startswith(ROOT):
            return None
        i = self.n
        self.n += 1
        self.ops.append((op, os.path.basename(p)))
        if i == self.at:
            self.fired = True
            if self.kind == 'crash':
                self.dead = True
                raise Crash()
            if self.kind == 'partial' and op == 'write':
                return 'partial'
            raise OSError(28, 'no space left (injected)', str(path))
        return None

    def after(self, op, path):
        if self.watch is not None:
            self.watch(op, str(path))


ROOT = os.getcwd() + os.sep
cur = None
real = {n: getattr(os, n) for n in ('rename', 'replace', 'remove', 'unlink', 'chmod')}
real_open = builtins.open


def wrap(name):
    def f(path, *a, **kw):
        if cur is None:
            return real[name](path, *a, **kw)
        cur.step(name, path)
        r = real[name](path, *a, **kw)
        cur.after(name, path)
        return r
    return f


class Writer:
    def __init__(self, f, path):
        self.f, self.path = f, path

    def write(self, s):
        if cur is not None and cur.step('write', self.path) == 'partial':
            self.f.write(s[:len(s) // 2])
            self.f.flush()
            raise OSError(28, 'no space left (injected)')
        r = self.f.write(s)
        self.f.flush()
        if cur is not None:
            cur.after('write', self.path)
        return r

    def writelines(self, l):
        for s in l:
            self.write(s)

    def close(self):
        self.f.close()

    def flush(self):
        self.f.flush()

    def fileno(self):
        return self.f.fileno()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.f.close()

    def __getattr__(self, n):
        return getattr(self.f, n)


class Reader(object):
    def __init__(self, f, path):
        self.f, self.path = f, path

    def read(self, *a):
        if cur is not None:
            cur.step('read', self.path)
        return self.f.read(*a)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.f.close()

    def __iter__(self):
        return iter(self.f)

    def __getattr__(self, n):
        return getattr(self.f, n)


def my_open(path, mode='r', *a, **kw):
    if cur is None or isinstance(path, int):
        return real_open(path, mode, *a, **kw)
    p = os.path.abspath(str(path))
    if not p.startswith(ROOT):
        return real_open(path, mode, *a, **kw)
    w = any(c in mode for c in 'wax+')
    cur.step('open ' + mode, path)
    f = real_open(path, mode, *a, **kw)
    if w:
        cur.after('open', path)
        return Writer(f, path)
    return Reader(f, path)


def install(*modules):
    for n in real:
        setattr(os, n, wrap(n))
    builtins.open = my_open
    io.open = my_open
    for m in modules:
        if hasattr(m, 'open'):
            m.open = my_open


def run(faults, f):
    """( 'ok', value ) | ( 'crash', None ) | ( 'raise', exception )"""
    global cur
    cur = faults
    try:
        return 'ok', f()
    except Crash:
        return 'crash', None
    except Exception as e:
        return 'raise', e
    except SystemExit as e:
        return 'ok', e.code
    finally:
        cur = None
