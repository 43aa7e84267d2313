"""C01: every parsing function of pp/yugen.py against the general contract of
contracts/parser.py: what it leaves unconsumed is a suffix of the text, carrying the
offset at which it starts and its file; every token it produces is a piece of the text
carrying its own offset and file; an application and an infix expression carry an offset
inside their own opening bracket.  All texts, all loops (invariants are inferred and
proved), callees by contract."""
from . import parser as P
from . import C04

HEAVY = ['ps_application', 'ps_code', 'ps_number', 'ps_text', 'ps_lambda', 'ps_plain', 'ps_string_python']
TRUSTED = ['models of Python built-ins (str, list, dict, re) in pyvc/models.py and pyvc/rx.py',
           '_import_source, _import_python, _import_eval by contract (C19)',
           'tracing and logging calls have no effect on the result']
ASSUMPTIONS = ['integers are mathematical (as in Python); recursion depth and memory are unlimited',
               'yushell.pp_skip_comments is 0, 1 or 2 (it is set only by the option parser)']


def unit(name):
    def run(I):
        P.setup(I)
        if name == 'ps_number':
            C04.hook(I)
        return P.verify(I, name)
    return run


UNITS = [(n, unit(n)) for n in P.PARSERS]


def keep(label):
    return not (label.startswith('raises') or 'terminates' in label)
