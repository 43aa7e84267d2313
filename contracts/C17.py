"""C17: cli() over any number of files, each of any name, with any outcome of every pass:
the passes of a file are made one after another from number zero, as long as the file asks
for another and none fails; the status is four times the number of failed files.  main() and
the three starting points of the program hand this status on."""
import ast
import z3
from pyvc.values import *
from . import shellmodel as S

FILE = z3.Function('file', z3.IntSort(), U)


class Spec:
    """What the next call of _pp_file must be, kept in the ghost object g: `next` files have
    been begun, `more` says that the last pass asks for another one, `number` is its number."""

    def __init__(self, I):
        self.g = Obj(I.builtin_classes['object'], None, {'next': 0, 'more': False, 'number': 0, 'failed': 0, 'ok': True})
        self.n = I.fint('files')
        I.assume(self.n.t >= 1)
        I.roots = {'g': self.g}

    def get(self, I, k):
        n = I.fint('name.len').t
        I.assume(n >= 0)
        return SStr([OStr(FILE(k), n)])

    def files(self, I):
        return Obj(I.builtin_classes['list'], ListP('fn', n=self.n.t, get=lambda k: self.get(I, k)))

    def call(self, I, a, kw):
        g = self.g.fields
        fn = I.strval(a[0] if a else kw.get('fn'))
        ok = isinstance(fn, SStr) and len(fn.ps) == 1 and isinstance(fn.ps[0], OStr)
        if not ok:
            I.oblige('a pass is made for a file of the run', False)
        cfg = I.module_get(I.prog.module('pp.yugen'), 'config')
        fb = I.module_get(I.prog.module('pp.yugen'), 'feedback')
        p = I.it(cfg.attrs['passage'])
        nxt, num, fl = I.it(g['next']), I.it(g['number']), I.it(g['failed'])
        if I.branch(I.bt(g['more'])):
            I.oblige('the next pass is of the file that asks for it', fn.ps[0].u == FILE(nxt - 1))
            I.oblige('the passes are numbered one after another', p == num + 1)
        else:
            I.oblige('the files are processed in their order, each once', z3.And(fn.ps[0].u == FILE(nxt), nxt < self.n.t))
            I.oblige('the first pass has number zero', p == 0)
            nxt = nxt + 1
        good, rep = I.fbool('ok'), I.fbool('repeat')
        I.write_field(fb, 'repeat', rep)
        I.write_field(self.g, 'next', SInt(nxt))
        I.write_field(self.g, 'number', SInt(p))
        I.write_field(self.g, 'ok', good)
        if I.branch(good):
            I.write_field(self.g, 'more', I.mkbool(rep.t))
            return True
        I.write_field(self.g, 'more', False)
        I.write_field(self.g, 'failed', SInt(fl + 1))
        return False


def hints(spec):
    def h(I, ctx, vals, ints, views):
        g = spec.g.fields
        out = [('begun', z3.And(0 <= I.it(g['next']), I.it(g['next']) <= spec.n.t)), ('more', I.bt(g['more'])), ('no more', z3.Not(I.bt(g['more'])))]
        for k, t in sorted(ints.items()):
            out.append(('%s is the number of files begun' % k, t == I.it(g['next'])))
            out.append(('%s is the number of files begun less one' % k, t == I.it(g['next']) - 1))
            out.append(('%s is the number of failed files' % k, t == I.it(g['failed'])))
            out.append(('%s is the status' % k, t == 4 * I.it(g['failed'])))
        cfg = I.module_get(I.prog.module('pp.yugen'), 'config')
        fb = I.module_get(I.prog.module('pp.yugen'), 'feedback')
        p = I.it(cfg.attrs['passage'])
        last, rep, more = I.bt(g['ok']), I.bt(fb.attrs['repeat']), I.bt(g['more'])
        out.append(('another pass if asked for and not failed', more == z3.And(last, rep)))
        out.append(('the last pass is the number', p == I.it(g['number'])))
        for k, v in sorted(vals.items()):
            if isinstance(v, (bool, SBool)):
                t = I.bt(v)
                out += [('%s is the last result' % k, t == last), ('%s is the last result negated' % k, t == z3.Not(last)),
                        ('%s: another pass' % k, t == more), ('%s: no other pass' % k, t == z3.Not(more))]
        for k, t in sorted(ints.items()):
            for d, e in ((0, 4), (1, 1), (0, 1)):
                out.append(('%s: %d per failed file, the last one excepted' % (k, e), t == e * (I.it(g['failed']) - z3.If(last, z3.IntVal(0), z3.IntVal(1)))))
        for k, v in sorted(vals.items()):
            s = v if isinstance(v, SStr) else None
            if s is not None and len(s.ps) == 1 and isinstance(s.ps[0], OStr):
                out.append(('%s is the file last begun' % k, s.ps[0].u == FILE(I.it(g['next']) - 1)))
                out.append(('%s is the next file' % k, s.ps[0].u == FILE(I.it(g['next']))))
                out.append(('%s is the next file, or the last one if it asks for more' % k,
                            s.ps[0].u == z3.If(I.bt(g['more']), FILE(I.it(g['next']) - 1), FILE(I.it(g['next'])))))
        for k, t in sorted(ints.items()):
            out.append(('next pass number is %s' % k, t == z3.If(I.bt(g['more']), I.it(g['number']) + 1, 0)))
            for d in (0, 1):
                out.append(('%s files, the one in progress excepted (%d)' % (k, d),
                            t - d == I.it(g['next']) - z3.If(I.bt(g['more']), z3.IntVal(1), z3.IntVal(0))))
        out.append(('number of the pass', p == z3.If(I.bt(g['more']), I.it(g['number']) + 1, 0)))
        return out
    return h


def cli(I):
    def body(I):
        S.surroundings(I)
        spec = Spec(I)
        I.hints = hints(spec)
        S.attrs(I, 'config', 'pp.yugen', passage=I.fint('passage'))
        S.attrs(I, 'feedback', 'pp.yugen', repeat=I.fbool('repeat'), output_file=None)
        S.attrs(I, 'shell', quiet=I.fbool('quiet'))
        tr = Obj(I.builtin_classes['object'], None, {'stage': I.fint('stage'), 'file': I.ostr('trace')})
        I.overrides['trace'] = tr
        args = Obj(I.builtin_classes['object'], None, {'files': spec.files(I), 'text': I.ostr('text'), 'text_source': I.ostr('source'),
                                                       'pp_browse': I.fbool('browse')})
        I.overrides['shell_parse_cli_arguments'] = Builtin('shell_parse_cli_arguments', lambda I, a, kw: args)
        I.overrides['_pp_configure'] = S.nop('_pp_configure')
        I.overrides['_pp_test'] = Builtin('_pp_test', lambda I, a, kw: I.fbool('ok'))
        I.overrides['_pp_text'] = Builtin('_pp_text', lambda I, a, kw: I.fbool('ok'))
        I.overrides['_pp_file'] = Builtin('_pp_file', spec.call)
        try:
            r = I.run_func(I.module_get(I.prog.module('pp.yup'), 'cli'), [I.new_list([])], {})
        except PyRaise as ex:
            I.oblige('no exception (%s)' % ex.cls.name, False)
        I.cover('the end of a run')
        g = spec.g.fields
        I.oblige('every file was begun', I.it(g['next']) == spec.n.t)
        I.oblige('every pass asked for was made', z3.Not(I.bt(g['more'])))
        if not I.is_int(r):
            I.oblige('the status is a number', False)
        I.oblige('the status is four times the number of failed files', I.it(r) == 4 * I.it(g['failed']))
    I.preload = []
    return I.verify('cli', body)


def start(module, what):
    """main() or the statements executed when the module is started."""
    def run(I):
        def body(I):
            S.surroundings(I)
            argv = I.new_list(['prog', I.ostr('a'), I.ostr('b')])
            I.overrides['sys.argv'] = argv
            status = I.fint('status')
            calls = []

            def cli(I, a, kw):
                calls.append(a[0] if a else kw.get('arglist'))
                return status
            I.overrides['cli'] = Builtin('cli', cli)
            I.overrides['sys.exit'] = Builtin('sys.exit', lambda I, a, kw: I.throw('SystemExit', *a))
            I.overrides['exit'] = I.overrides['sys.exit']
            I.overrides['__name__'] = '__main__'
            m = I.prog.module(module)
            r = None
            try:
                if what == 'main':
                    r = I.run_func(I.module_get(m, 'main'), [], {})
                else:
                    from pyvc.engine import Frame
                    from pyvc.values import PyReturn
                    fr = Frame(None, m, None)
                    I.frames.append(fr)
                    try:
                        for st in m.tree.body:
                            if isinstance(st, ast.If):
                                I.stmt(st)
                    finally:
                        I.frames.pop()
            except PyRaise as ex:
                if ex.cls.name != 'SystemExit':
                    I.oblige('no exception (%s)' % ex.cls.name, False)
                r = ex.args_[0] if ex.args_ else None
            I.cover('ends')
            ok = len(calls) == 1
            I.oblige('the program is run once', ok)
            src = I.iterate(calls[0])
            I.oblige('with the arguments after the name of the program', isinstance(src, list) and len(src) == 2
                     and src[0] is argv.payload.items[1] and src[1] is argv.payload.items[2])
            if not I.is_int(r):
                I.oblige('the status is handed on', False)
            I.oblige('the status is handed on', I.it(r) == status.t)
        return I.verify(module + ' ' + what, body)
    return run


UNITS = [('cli', cli), ('__main__.main', start('__main__', 'main')), ('__main__', start('__main__', 'start')),
         ('pp.__main__', start('pp.__main__', 'start')), ('pp.yup', start('pp.yup', 'start'))]
TRUSTED = ['_pp_file by contract: a truth value, feedback.repeat set, no exception (_pp_file and _pp_stream are proved in C16)',
           'shell_parse_cli_arguments and _pp_configure by contract (C21)', 'the interpreter calls main of the package or executes the module']
ASSUMPTIONS = ['passes end (a file may ask for passes without end)', 'an exit status of the operating system keeps eight bits: see the known finding']
