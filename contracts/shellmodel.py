"""The surroundings of pp/yup.py: a file system in which every operation may fail, the
standard streams, and the log.  A file is known by its name; what the names have in common
is decided as in pyvc/lang.py.  Trusted."""
import z3
from pyvc.values import *
from pyvc import lang as L
from . import osmodel as O


class Entry:
    """A file: whether it existed before the run and what it holds now (None: absent)."""

    def __init__(self, path, now, what):
        self.path, self.now, self.what = path, now, what
        self.before = now
        self.mode = None


class FS:
    def __init__(self, I, moment=None):
        self.I = I
        self.entries = []
        self.moment = moment        # called after every change of the files
        self.log = []               # ( operation, path, value )
        self.failed = []            # operations that failed
        self.faults = True          # operations may fail
        self.fresh = True           # an unknown file may exist

    def find(self, path):
        I = self.I
        s = I.strval(path)
        if s is None or not L.pure(s):
            raise Unsupported('a file name of unknown origin')
        for e in self.entries:
            if L.eq(I, e.path, s):
                return e
        there = I.choose(2) == 0
        e = Entry(s, ('before', len(self.entries)) if there else None, 'file %d' % len(self.entries))
        self.entries.append(e)
        return e

    def fault(self, op, path, classes=('OSError',)):
        """The operation may fail; a failing one has no effect."""
        if not self.faults:
            return
        k = self.I.choose(1 + len(classes))
        if k:
            self.failed.append((op, path))
            self.I.throw(classes[k - 1], op)

    def changed(self, op, path, v=None):
        self.log.append((op, path, v))
        if self.moment is not None:
            self.moment(self, op)

    # operations
    def exists(self, I, a, kw):
        return self.find(a[0]).now is not None

    def chmod(self, I, a, kw):
        e = self.find(a[0])
        if e.now is None:
            I.throw('OSError', 'chmod')
        self.fault('chmod', e.path)
        e.mode = a[1] if len(a) > 1 else kw.get('mode')
        self.changed('chmod', e.path)

    def remove(self, I, a, kw):
        e = self.find(a[0])
        if e.now is None:
            I.throw('OSError', 'remove')
        self.fault('remove', e.path)
        e.now = None
        self.changed('remove', e.path)

    def rename(self, I, a, kw):
        x, y = self.find(a[0]), self.find(a[1])
        if x.now is None:
            I.throw('OSError', 'rename')
        self.fault('rename', x.path)
        if x is not y:
            y.now, x.now = x.now, None
        self.changed('rename', x.path, y.path)

    def copy(self, I, a, kw):
        x, y = self.find(a[0]), self.find(a[1])
        if x.now is None:
            I.throw('OSError', 'copy')
        self.fault('copy', y.path)
        v, y.now = x.now, ('partial',)
        self.changed('copy', y.path)
        self.fault('copy', y.path)
        y.now = v
        self.changed('copy', y.path)

    def open(self, I, a, kw):
        mode = a[1] if len(a) > 1 else kw.get('mode', 'r')
        if not isinstance(mode, str):
            raise Unsupported('open mode')
        e = self.find(a[0])
        f = Obj(I.builtin_classes['object'])
        f.ghost.update(file=e, open=True, data=[])
        g = f.ghost
        if 'r' in mode and '+' not in mode:
            if e.now is None:
                I.throw('OSError', 'open')
            self.fault('open', e.path)

            def read(I, o, a, kw):
                whole(a)
                self.fault('read', e.path, ('OSError', 'UnicodeDecodeError'))
                return self.content(e)
            g['methods'] = {'read': read, 'close': lambda I, o, a, kw: None}
            g['enter'] = lambda I, o: o
            return f
        if 'x' in mode and e.now is not None:
            I.throw('OSError', 'open')
        if 'a' in mode or '+' in mode:
            raise Unsupported('open mode ' + mode)
        self.fault('open', e.path)
        e.now = ('partial',)
        self.changed('truncate', e.path)

        def write(I, o, a, kw):
            if not g['open']:
                I.throw('ValueError', 'write')
            self.fault('write', e.path, ('OSError', 'UnicodeEncodeError'))
            g['data'].append(a[0])
            self.changed('write', e.path)
            return 0

        def close(I, o, a, kw):
            if g['open']:
                g['open'] = False
                self.fault('close', e.path)
                if e.now == ('partial',):
                    e.now = ('text',) + tuple(g['data'])
                self.changed('close', e.path)

        def leave(I, o):
            if I.ghost.get('handling_exit'):
                return
            close(I, o, (), {})
        g['methods'] = {'write': write, 'close': close, 'flush': lambda I, o, a, kw: None, 'fileno': lambda I, o, a, kw: 3}
        g['enter'] = lambda I, o: o
        g['exit'] = leave
        return f

    def content(self, e):
        c = e.now
        if c[0] == 'text' and len(c) == 2:
            return c[1]
        return self.I.ostr('content')

    def install(self):
        I = self.I
        ops = {'os.path.isfile': self.exists, 'os.path.exists': self.exists, 'os.path.lexists': self.exists,
               'os.chmod': self.chmod, 'os.remove': self.remove, 'os.unlink': self.remove, 'os.rename': self.rename,
               'os.replace': self.rename, 'shutil.move': self.rename, 'shutil.copyfile': self.copy, 'shutil.copy': self.copy,
               'shutil.copy2': self.copy, 'io.open': self.open, 'codecs.open': self.open, 'builtins.open': self.open}
        for n, f in ops.items():
            I.overrides[n] = Builtin(n, f)
        I.overrides['open'] = Builtin('open', self.open)
        I.overrides['os.fsync'] = Builtin('os.fsync', lambda I, a, kw: None)


def nop(name):
    return Builtin(name, lambda I, a, kw: None)


class Quiet(LibModule):
    """The log: keeps the calls."""

    def __init__(self, name):
        LibModule.__init__(self, name)


def surroundings(I):
    """The log, the trace and the printing are observed only as far as they do not fail."""
    O.install(I)
    I.overrides['log'] = Quiet('log')
    I.overrides['print'] = nop('print')
    I.overrides['sorted'] = Builtin('sorted', lambda I, a, kw: Obj(I.builtin_classes['list'], I.sym_list(('seq',), 'sorted')))

    def hook(I, key):
        if key.startswith('log.'):
            return Builtin(key, lambda I, a, kw: I.ghost.setdefault('logged', []).append((key, tuple(a))))
        if key.startswith('stat.'):
            import stat
            return getattr(stat, key[5:], None)
        if key in ('json.dumps', 'traceback.format_exc'):
            return Builtin(key, lambda I, a, kw: I.ostr('text'))
        return None
    I.lib_hook = hook


def attrs(I, fn, mod='pp.yup', **kw):
    """Attributes of a function used as a record (shell, config, feedback, yushell)."""
    f = I.module_get(I.prog.module(mod), fn)
    f.attrs.update(kw)
    return f


SHAPES = 4


def out_name(I, tag='out'):
    """( description, an output name ): any directory, with the extension of an AST file, with
    another extension or none."""
    d = O.directory(I, tag + '.dir')
    k = I.choose(3)
    root = L.piece(I, tag + '.root', '\\.*[^./\\n][^/\\n]*')
    if k == 0:
        return 'an extension', I.concat(d, SStr([root, '.', L.piece(I, tag + '.ext', '(?:[^./\\na][^./\\n]*|a(?:[^./\\ns][^./\\n]*)?|as(?:[^./\\nt][^./\\n]*)?|ast[^./\\n]+|)')]))
    if k == 1:
        return 'the extension of an AST', I.concat(d, SStr([root, '.ast']))
    return 'no extension', I.concat(d, SStr([L.piece(I, tag + '.name', '\\.*[^./\\n]+')]))
