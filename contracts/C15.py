"""C15: _output_fn of pp/yup.py over all file names: the names are divided into cases by
their last component (no extension, the yupp extension in any letter case with or without
an inner extension, with a language suffix, any other extension), every part of unbounded
length and decided by finite automata; in each case the result is the documented function
of the name, in the output directory if one is given and else beside the input, and the
last component of the result is not that of the input."""
import itertools
import z3
from pyvc.values import *
from pyvc import lang as L
from . import osmodel as O

MARK = '.yugen'
ROOT = '\\.*[^./\\n][^/\\n]*'                            # the root of a name with an extension
PLAINNAME = '\\.*[^./\\n]*'                              # a name without extension
NOT_YU = '(?:[^yY./\\n][^./\\n]*|[yY](?:[^uU./\\n][^./\\n]*)?|[yY][uU](?:[^\\-./\\n][^./\\n]*|-)|)'
YU = [''.join(x) for x in itertools.product('yY', 'uU')]


def shell_attrs(I, **kw):
    f = I.module_get(I.prog.module('pp.yup'), 'shell')
    f.attrs.update(kw)
    return f


def name(I):
    """( description, last component, documented last component of the output )"""
    k = I.choose(5)
    if k == 0:
        b = SStr([L.piece(I, 'name', PLAINNAME)])
        return 'no extension', b, I.concat(b, MARK)
    if k == 1:
        r = L.piece(I, 'root', ROOT)
        x = L.piece(I, 'ext', NOT_YU)
        return 'another extension', SStr([r, '.', x]), SStr([r, MARK + '.', x])
    yu = YU[I.choose(4)]
    if k == 2:
        r = L.piece(I, 'root', ROOT)
        y = L.piece(I, 'suffix', '[^./\\n]+')
        return 'a language suffix', SStr([r, '.' + yu + '-', y]), SStr([r, '.', y])
    if k == 3:
        r = L.piece(I, 'root', '\\.*[^./\\n]+')
        return 'the yupp extension alone', SStr([r, '.' + yu]), SStr([r, MARK])
    r = L.piece(I, 'root', ROOT)
    x = L.piece(I, 'inner', '[^./\\n]*')
    return 'an inner extension', SStr([r, '.', x, '.' + yu]), SStr([r, '.', x])


def run(I):
    O.install(I)

    def body(I):
        what, b, want = name(I)
        d = O.directory(I)
        fn = I.concat(d, b)
        k = I.choose(3)
        if k == 0:
            shell_attrs(I, output_dir='')
            head = d
        else:
            od = SStr([L.piece(I, 'out', '[\\s\\S]*[^/]')]) if k == 1 else SStr([L.piece(I, 'out', '[\\s\\S]*'), '/'])
            shell_attrs(I, output_dir=od)
            head = I.concat(od, '/') if k == 1 else od
        try:
            out = I.run_func(I.module_get(I.prog.module('pp.yup'), '_output_fn'), [fn], {})
        except PyRaise as ex:
            I.oblige('%s: no exception (%s)' % (what, ex.cls), False)
        I.cover(what)
        out = I.strval(out)
        if out is None:
            I.oblige('the result is a string', False)
        L.oblige_same(I, what + ': the documented name', out, I.concat(head, want))
        I.oblige(what + ': the last component is not that of the input', z3.Not(I.bt(I.str_eq(want, b))))
        if k == 0:
            I.oblige(what + ': the output is not the input', z3.Not(I.bt(I.str_eq(out, fn))))
    return I.verify('_output_fn', body)


UNITS = [('_output_fn', run)]
TRUSTED = ['os.path.splitext, join, basename, dirname as contracts/osmodel.py defines them (POSIX)',
           're.search on the extension as pyvc/lang.py evaluates it']
ASSUMPTIONS = ['the last component of the name has no line feed',
               'characters outside ASCII are represented by one decimal digit, one superscript, one letter, one space and one other']
