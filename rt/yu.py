"""Access to the real code of /repo."""
import signal
from common import *
from pp import yugen
from pp.yugen import *
from pp import yup
import logging

quiet()


class Timeout(Exception):
    pass


def limit(sec):
    def h(*a):
        raise Timeout()
    signal.signal(signal.SIGALRM, h)
    signal.setitimer(signal.ITIMER_REAL, sec)


def unlimit():
    signal.setitimer(signal.ITIMER_REAL, 0)


yugen.inspect.getouterframes = lambda f, context=1, _o=yugen.inspect.getouterframes: _frames(f)


def _frames(f):
    """The same as inspect.getouterframes, without reading the source files."""
    out = []
    while f is not None:
        out.append((f, f.f_code.co_filename, f.f_lineno, f.f_code.co_name, None, None))
        f = f.f_back
    return out


def shell(text, fn=None, out=None, **opts):
    for k, v in dict(dict(pp_skip_comments=0, pp_trim_app_indent=True, pp_reduce_emptiness=True, pp_browse=False,
                          pp_define=[], warn_unbound_application=False, directory=[], passage=0), **opts).items():
        setattr(config, k, v)
    yushell(text, fn, out)
    yuinit()


def translate(text, fn=None, out=None, **opts):
    """The text of the result, as _pp() makes it; raises what the preprocessor raises."""
    shell(text, fn, out, **opts)
    plain = yueval(yuparse(yushell.input_file))
    if isinstance(plain, str):
        return replace_steady(reduce_emptiness(plain))
    return None
