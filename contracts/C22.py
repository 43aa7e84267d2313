"""C22: yupp_search_function of __init__.py for every name (any length, any characters):
it answers exactly to 'yupp', in any letter case, alone or followed by a dot and a name the
encodings package knows; the codec it returns encodes and writes with that encoding, with
UTF-8 when none is named, and decodes through the preprocessor over the same encoding."""
import itertools
from pyvc.values import *
from pyvc import lang as L
from . import osmodel as O

CASES = [''.join(x) for x in itertools.product('yY', 'uU', 'pP', 'pP')]
NOT_YUPP = '(?:[^yY.][^.]*|[yY](?:[^uU.][^.]*)?|[yY][uU](?:[^pP.][^.]*)?|[yY][uU][pP](?:[^pP.][^.]*)?|)'
ANY = '[\\s\\S]*'


PARTS = ('encode', 'decode', 'incrementalencoder', 'incrementaldecoder', 'streamreader', 'streamwriter')
CLASSES = {'IncrementalEncoder': 'incrementalencoder', 'IncrementalDecoder': 'incrementaldecoder',
           'StreamReader': 'streamreader', 'StreamWriter': 'streamwriter'}
KINDS = {k: Class(k, [], {}, builtin=True) for k in ('CodecInfo', 'CodecModule')}


def missing(I, o, name):
    I.throw('AttributeError', name)


def codec(I, key, module=False):
    """A codec of the encodings package: the CodecInfo of the lookup, or the module of the
    encoding, which name the same parts differently."""
    c = I.ghost.setdefault('codecs', {})
    if (key, module) not in c:
        o = Obj(KINDS['CodecModule' if module else 'CodecInfo'])
        names = dict(CLASSES, encode='encode', decode='decode') if module else {n: n for n in PARTS}
        for n, p in names.items():
            part = Obj(I.builtin_classes['object'])
            part.ghost['codec'] = (key, p)
            o.fields[n] = part
        if module:
            o.fields['getregentry'] = Builtin('getregentry', lambda I, a, kw: codec(I, key))
        o.ghost['key'] = key
        c[(key, module)] = o
    return c[(key, module)]


def shape(I):
    """( description, name, accepted, encoding )"""
    k = I.choose(7)
    if k == 0:
        return 'another name', SStr([L.piece(I, 'name', NOT_YUPP)]), False, None
    if k == 1:
        return 'another name with a dot', SStr([L.piece(I, 'name', NOT_YUPP), '.', L.piece(I, 'rest', ANY)]), False, None
    y = CASES[I.choose(16)]
    if k == 2:
        return 'the plain name', y, True, None
    if k == 3:
        e = L.piece(I, 'encoding', '[^.]*')
        return 'a name with an encoding', SStr([y, '.', e]), True, SStr([e])
    if k == 4:
        e = SStr([L.piece(I, 'encoding', '[^.]*'), '.', L.piece(I, 'rest', ANY)])
        return 'a name with a dotted encoding', I.concat(y + '.', e), True, e
    x = L.piece(I, 'more', '[^.]+')
    if k == 5:
        return 'a longer name', SStr([y, x]), False, None
    return 'a longer name with an encoding', SStr([y, x, '.', L.piece(I, 'encoding', ANY)]), False, None


def factory(I, name):
    def f(I, a, kw):
        o = Obj(I.builtin_classes['object'])
        o.ghost['made'] = (name, a[0] if a else list(kw.values())[0])
        return o
    I.overrides[('__init__', name)] = Builtin(name, f)


def run(I):
    utf8 = []

    def search(I, a, kw):
        s = I.strval(a[0])
        if s is None:
            raise Unsupported('search_function')
        e = I.ghost['encoding']
        I.ghost['searched'] = s
        if I.choose(2) == 1:
            I.ghost['unknown'] = True
            return None
        return codec(I, 'named')

    def info(I, a, kw):
        names = ['encode', 'decode', 'streamreader', 'streamwriter', 'incrementalencoder', 'incrementaldecoder', 'name']
        d = dict(zip(names, a))
        d.update(kw)
        o = Obj(I.builtin_classes['object'])
        o.ghost['info'] = d
        return o

    def lib_hook(I, key):
        if key == 'encodings.utf_8':
            return codec(I, 'utf_8', True)
        if key == 'encodings.search_function':
            return Builtin(key, search)
        if key == 'codecs.lookup':
            raise Unsupported(key)
        if key == 'codecs.CodecInfo':
            return Builtin(key, info)
        return None
    I.lib_hook = lib_hook
    I.lazy_fields = {k: missing for k in KINDS}
    for n in ('decoder_factory', 'incremental_decoder_factory', 'stream_decoder_factory'):
        factory(I, n)

    def body(I):
        what, name, accept, enc = shape(I)
        I.ghost['encoding'] = enc
        try:
            r = I.run_func(I.module_get(I.prog.module('__init__'), 'yupp_search_function'), [name], {})
        except PyRaise as ex:
            I.oblige('%s: no exception (%s)' % (what, ex.cls), False)
        I.cover(what)
        d = r.ghost.get('info') if isinstance(r, Obj) else None
        if not accept:
            I.oblige(what + ': not answered', r is None)
            return
        key = 'utf_8'
        if enc is not None:
            key = 'named'
            if 'searched' not in I.ghost:
                I.oblige(what + ': its encoding is looked up', False)
            got = I.ghost['searched']
            if L.pure(got):
                L.oblige_same(I, what + ': its own encoding is looked up', got, enc)
            else:
                raise Unsupported('the encoding looked up')
            if I.ghost.get('unknown'):
                I.cover('an unknown encoding')
                I.oblige(what + ': an unknown encoding is not answered', r is None)
                return
        if d is None:
            I.oblige(what + ': answered', False)
        I.oblige(what + ': the name of the codec', d.get('name') == 'yupp')
        for n in ('encode', 'incrementalencoder', 'streamwriter'):
            v = d.get(n)
            I.oblige('%s: %s of the base encoding' % (what, n), isinstance(v, Obj) and v.ghost.get('codec') == (key, n))
        for n, f in (('decode', 'decoder_factory'), ('incrementaldecoder', 'incremental_decoder_factory'),
                     ('streamreader', 'stream_decoder_factory')):
            v = d.get(n)
            ok = isinstance(v, Obj) and v.ghost.get('made') and v.ghost['made'][0] == f and isinstance(v.ghost['made'][1], Obj) and v.ghost['made'][1].ghost.get('key') == key
            I.oblige('%s: %s through the preprocessor' % (what, n), bool(ok))
    return I.verify('yupp_search_function', body)


UNITS = [('yupp_search_function', run)]
TRUSTED = ['encodings.search_function: a codec or None for every name, and the encodings package itself',
           'codecs.CodecInfo keeps the functions it is given',
           'decoder_factory, incremental_decoder_factory, stream_decoder_factory as constructors (what they decode is C05, C18)']
ASSUMPTIONS = ['the parts of a CodecInfo are read by codecs.lookup as documented',
               'characters outside ASCII are represented by one decimal digit, one superscript, one letter, one space and one other']
