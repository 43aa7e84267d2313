"""C02 at run time: parsing ends, by a tree or by a diagnostic."""
from yu import *
import gen
import re

MSG = re.compile(r'ps_[a-z_]+:')


def one(r, T, py=False, skip=0):
    r.case((T, py, skip), T)
    limit(20)
    try:
        shell(T, 'f.yu', 'f.py' if py else 'f.c', pp_skip_comments=skip)
        yuparse('f.yu')
    except (SyntaxError, EOFError) as e:
        unlimit()
        m = e.args[0] if e.args else ''
        r.check(MSG.match(str(m)) is not None, 'message:' + type(e).__name__, 'the diagnostic does not name its rule', text=T, message=m, py=py,
                skip=skip)
    except Timeout:
        r.fail('hang:' + str(len(T) < 200), 'parsing does not end', text=T, py=py, skip=skip)
    except Exception as e:
        unlimit()
        m = str(e.args[0]) if e.args else ''
        if not (m.startswith('ps_import') and '($import' in T):
            r.fail('internal:%s' % type(e).__name__, 'parsing fails with an internal error', text=T, error=repr(e), py=py, skip=skip)
    finally:
        unlimit()


FIXED = ['', '(', '($', '($)', '($ ', '($set', '($set ', '($set a', '($macro', '($macro m', '($macro m (', '($macro m (a', '($macro m (a)', '($!', '(`', '($quote',
         '{', '(${}', '($import', '($import x', '($import "x"', '($import "x.py")', '($import nolib)', '($let', '($let a', '($emit', '($emit a', '($code', ']', '($]',
         '($ ]a[', '"', "'", '/*', '//', '#', '#!', '# coding: yupp', '# coding: yupp.', '\n# coding: yupp', '# coding: yupp\n', '($ \\a', '($ \\a.', '($ \\a:',
         '($ \\a..', '($ \\a...', '($ (a', '($ (a ?', '($ (a ? b', '($ (a ? b |', '($ a,', '($ a,,', '($ a;;', '\x00', '\u0416', 'a\x01', '($ 0x)', '($ 1.)',
         '($ 08)', '($ 5LL)', '($ - )', '($ +)', '"""', "'''", 'r"', '($ ())', '($ {})', '(${})', '\\', '\\set', '($set (', '($set ()', '($set () 1)', '($set (a) ',
         '($ "\\', '($ \'\\', '($ &', '($ *', '($ a..', '($ a..b)', '($ ..)', '($ __)', '($set a 1 \\set', '($emit a \\emit', '($let a 1 2 \\let', '($import h \\import',
         '"""a\nb"""', "'''a\nb\n'c''' d", '"""a\nb', "'a\\\nb'", '"a\\\nb\\\nc" d', '"a\\\nb', '"a\\\nb\nc"', "'a\nb'", 'r"a\\\nb"',
         '($ "a\\\nb" \'c\\\nd\')', '($ """a\nb""" c)', '($set a """\n\n""")']


def body(r):
    r.rule = 'random and damaged source texts of yupp, with C and Python output and every mode of comments; distinct by text and mode'
    for t in FIXED:
        for py in (False, True):
            for s in (0, 1, 2):
                one(r, t, py, s)
    while r.left() > 0:
        t = gen.source(r.rng)
        if r.rng.random() < .3:
            t = t[:r.rng.randrange(len(t) + 1)]
        one(r, t, r.rng.random() < .4, r.rng.choice([0, 0, 1, 2]))


main(body)
