"""C16: _pp_stream (with shell_backup and shell_savetofile) over a file system in which
every operation may fail or be the last one of the run, for every output name and every
outcome of the translation; and _pp_file, which reports what _pp_stream reports."""
import z3
from pyvc.values import *
from pyvc import lang as L
from . import osmodel as O
from . import shellmodel as S


def plain_values(I, k):
    """The outcome of _pp: ( ok, plain )"""
    if k == 0:
        return True, SStr([L.piece(I, 'text', '[\\s\\S]*')])
    if k == 1:
        r = I.new('RESULT', SStr([L.piece(I, 'text', '[\\s\\S]*')]))
        r.fields.update(browse=I.new_list(), offset=I.new_list())
        return True, r
    if k == 2:
        return False, ''
    return False, SStr([L.piece(I, 'ast', '[\\s\\S]+')])


def stream(I):
    f = Obj(I.builtin_classes['object'])

    def read(I, o, a, kw):
        whole(a)
        k = I.choose(3)
        if k:
            I.throw(('OSError', 'UnicodeDecodeError')[k - 1], 'read')
        return I.ghost['source']
    f.ghost['methods'] = {'read': read, 'close': lambda I, o, a, kw: None}
    return f


def same_text(I, c, plain):
    """The content of a file is the whole text."""
    if not (isinstance(c, tuple) and c and c[0] == 'text'):
        return False
    s = ''
    for x in c[1:]:
        v = I.strval(x)
        if v is None:
            return False
        s = I.concat(s, v)
    return L.same(s, I.strval(plain)) is True


def pp_stream(I):
    def body(I):
        S.surroundings(I)
        what, name = S.out_name(I)
        k = I.choose(4)
        renamed = k < 2 and I.choose(2) == 1             # a failed translation keeps the derived name
        first = SStr([L.piece(I, 'first', '[\\s\\S]+')]) if renamed else name
        case = ('renamed output, ' if renamed else '') + what
        fs = FSrun(I, name, case)
        fs.install()
        I.ghost['source'] = SStr([L.piece(I, 'source', '[\\s\\S]*')])
        S.attrs(I, 'shell', read_only=I.fbool('read_only'))
        fb = S.attrs(I, 'feedback', output_file=None, repeat=False)
        calls = []

        def pp(I, a, kw):
            calls.append('_pp')
            I.ghost['outcome'] = plain_values(I, k)
            if renamed:
                fb.attrs['output_file'] = name
            elif I.choose(2):
                fb.attrs['output_file'] = ''
            return I.ghost['outcome']
        I.overrides['_pp'] = Builtin('_pp', pp)
        I.overrides['yushell'] = Builtin('yushell', lambda I, a, kw: calls.append(('yushell', a)))
        I.overrides['yuinit'] = S.nop('yuinit')
        src = SStr([L.piece(I, 'fn', '[\\s\\S]+')])
        try:
            r = I.run_func(I.module_get(I.prog.module('pp.yup'), '_pp_stream'), [stream(I), src, first], {})
        except PyRaise as ex:
            if ex.cls.name == 'UnicodeEncodeError' and fs.failed and fs.failed[-1][0] == 'write' and not fs.text_file(fs.failed[-1][1]):
                raise PathEnd()
            I.oblige('%s: a failure is reported, not raised (%s)' % (case, ex.cls.name), False)
        if not isinstance(r, tuple) or len(r) != 3:
            I.oblige('returns the outcome, the text and the name', False)
        ok, plain, fn_o = r
        I.cover(case)
        out = I.ghost.get('outcome')
        if I.branch(I.bt(I.truth(ok))):
            I.cover('success')
            I.oblige('success only after a successful translation', bool(out) and out[0] is True)
            e = fs.find(fn_o)
            I.oblige('success only if the whole text is in the file that is reported', same_text(I, e.now, out[1]))
            L.oblige_same(I, 'the file reported is the output file', I.strval(fn_o), name)
        else:
            I.cover('failure')
            if out is None or out[0] is not True:
                for e in (fs.out, fs.bak):
                    I.oblige('a failed translation leaves the %s as it was' % e.what, e.now == e.before)
        if out is not None and out[0] is True and not fs.failed:
            I.oblige('nothing fails: success', z3.simplify(I.bt(I.truth(ok))) if not isinstance(ok, bool) else ok)
    return I.verify('_pp_stream', body)


class FSrun(S.FS):
    """The files of a run: the previous output is under its own or its backup name at every moment."""

    def __init__(self, I, name, case):
        S.FS.__init__(self, I, self.check)
        self.case = case
        self.out = self.find(name)
        self.out.what = 'output'
        self.bak = self.find(I.concat(name, '.bak'))
        self.bak.what = 'backup'

    def check(self, fs, op):
        p = self.out.before
        if p is not None:
            self.I.oblige('%s: after %s the previous output is under its own or its backup name' % (self.case, op),
                          self.out.now == p or self.bak.now == p)

    def text_file(self, path):
        """Whether the text that goes there is that of the user (it may have characters without an encoding)."""
        return True


def pp_file(I):
    def body(I):
        S.surroundings(I)
        fs = S.FS(I)
        fs.install()
        calls = []
        ok = I.fbool('ok')
        name = SStr([L.piece(I, 'fn', '[\\s\\S]+')])
        out = SStr([L.piece(I, 'fn_o', '[\\s\\S]+')])
        res = SStr([L.piece(I, 'res', '[\\s\\S]+')])
        I.overrides['_output_fn'] = Builtin('_output_fn', lambda I, a, kw: out)

        def stream(I, a, kw):
            a = list(a) + [kw[k] for k in ('_stream', 'fn', 'fn_o')[len(a):] if k in kw]
            calls.append(a)
            plain = (None, '', SStr([L.piece(I, 'plain', '[\\s\\S]+')]))[I.choose(3)]
            return (ok, plain, res)
        I.overrides['_pp_stream'] = Builtin('_pp_stream', stream)
        S.attrs(I, 'shell', quiet=I.fbool('quiet'), type_output=I.fbool('type_output'))
        try:
            r = I.run_func(I.module_get(I.prog.module('pp.yup'), '_pp_file'), [name], {})
        except PyRaise as ex:
            I.oblige('a failure is reported, not raised (%s)' % ex.cls.name, False)
        if not calls:
            I.cover('cannot be opened')
            I.oblige('a file that cannot be opened is a failure', I.bt(I.truth(r)) is False or z3.Not(I.bt(I.truth(r))))
            return
        I.cover('opened')
        I.oblige('preprocesses it once, under the derived name', len(calls) == 1 and len(calls[0]) == 3 and calls[0][1] is name and calls[0][2] is out
                 and isinstance(calls[0][0], Obj) and calls[0][0].ghost.get('file') is fs.find(name))
        I.oblige('reports the outcome', I.bt(I.truth(r)) == I.bt(ok))
        I.oblige('does not touch other files', not fs.log)
    return I.verify('_pp_file', body)


UNITS = [('_pp_stream', pp_stream), ('_pp_file', pp_file)]
TRUSTED = ['the file system of contracts/shellmodel.py (a failing operation has no effect, a failing write or an open for writing leaves a part; rename is atomic)',
           '_pp, yushell and yuinit by contract: any outcome, no file touched, no exception (C02, C20)',
           'os.path as contracts/osmodel.py defines it', 'log and print do not fail']
ASSUMPTIONS = ['file names have no line feed in their last component', 'other processes do not touch the files meanwhile']
