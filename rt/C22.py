"""C22 at run time: the codec lookup against the documented names."""
from pkg import *
import codecs
import encodings
import io

KNOWN = ['utf_8', 'utf-8', 'UTF-8', 'utf8', 'latin-1', 'latin_1', 'iso8859-1', 'cp1251', 'koi8-r', 'ascii', 'utf-16', 'utf_16_le', 'cp437', 'L1', 'rot13']
UNKNOWN = ['', 'nope', 'utf-99', 'yupp', '.', 'utf-8.x', 'x.utf-8', ' ', 'latin1x']
TEXT = 'abc \u00e9\u0436\n'


def base(enc):
    try:
        return encodings.search_function(enc)
    except Exception:
        return None


def enc_result(f, *a):
    try:
        return f(*a)
    except Exception as e:
        return type(e).__name__


def one(r, name):
    r.case(name)
    low = name[:4].lower()
    want = None
    if low == 'yupp' and len(name) == 4:
        want = codecs.lookup('utf_8')
    elif low == 'yupp' and name[4] == '.':
        want = base(name[5:])
    try:
        got = yupp.yupp_search_function(name)
    except Exception as e:
        r.fail('raise:' + type(e).__name__, 'the lookup fails', name=name, error=repr(e))
        return
    if not r.check((got is None) == (want is None), 'answer', 'the codec answers to a wrong name, or not to its own', name=name, answered=got is not None):
        return
    if got is None:
        return
    for t in ('abc', TEXT, '\u0436', '\x80', ''):
        a, b = enc_result(got.encode, t), enc_result(want.encode, t)
        if not r.check(a == b, 'encode', 'the codec does not encode with its base encoding', name=name, text=t, got=a, expected=b):
            return
        if want.incrementalencoder is not None:
            a = enc_result(lambda: got.incrementalencoder().encode(t, True))
            b = enc_result(lambda: want.incrementalencoder().encode(t, True))
            r.check(a == b, 'incremental', 'the codec does not encode in steps with its base encoding', name=name, text=t, got=a, expected=b)

        def write(c):
            s = io.BytesIO()
            w = c.streamwriter(s)
            w.write(t)
            return s.getvalue()
        a, b = enc_result(write, got), enc_result(write, want)
        r.check(a == b, 'write', 'the codec does not write with its base encoding', name=name, text=t, got=a, expected=b)
    r.check(got.name == 'yupp', 'name', 'the name of the codec', name=name, got=got.name)


def lookup(r, name, known):
    r.case(('lookup', name))
    try:
        got = codecs.lookup(name) is not None
    except LookupError:
        got = False
    except Exception as e:
        r.fail('lookup:' + type(e).__name__, 'codecs.lookup fails', name=name, error=repr(e))
        return
    r.check(got == known, 'registered', 'codecs.lookup answers wrongly', name=name, answered=got)


def body(r):
    r.rule = 'letter cases of yupp x (nothing, dot and encoding, other tails), then random names; distinct by name'
    for n, k in (('yupp', True), ('YUPP', True), ('yupp.latin-1', True), ('yupp.utf_8', True), ('yupp.nope', False), ('yuppy', False), ('yup', False), ('xyupp', False)):
        lookup(r, n, k)
    heads = [''.join(x) for x in __import__('itertools').product('yY', 'uU', 'pP', 'pP')] + ['', 'yup', 'xyupp', 'yuupp', ' yupp', 'YUP', 'yupq', 'y\u03c5pp', 'yupp.yupp']
    for h in heads:
        for t in ['', '.', 'x', '_', '-utf-8', 'utf-8', ' ', '\n'] + ['.' + x for x in KNOWN + UNKNOWN] + ['x.' + x for x in KNOWN[:3]]:
            one(r, h + t)
    while r.left() > 0:
        n = ''.join(r.rng.choice('yupPYU.-_8tf1x') for _ in range(r.rng.randrange(0, 10)))
        one(r, (r.rng.choice(heads) if r.rng.random() < .7 else '') + n)


main(body)
