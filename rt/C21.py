"""C21 at run time: configuration scripts and command lines on the real program, over any earlier settings."""
from yu import *
import contextlib
import io
import shutil

DEF = {'pp_skip_comments': 0, 'pp_trim_app_indent': True, 'pp_reduce_emptiness': True, 'pp_browse': False, 'warn_unbound_application': True,
       'log_level': 1, 'trace_stage': 0, 'traceback': 1, 'quiet': False, 'type_output': False, 'read_only': True, 'output_dir': '',
       'directory': [], 'pp_define': []}
LISTS = ('directory', 'pp_define', 'dependency')
BOOLS = ('pp_trim_app_indent', 'pp_reduce_emptiness', 'pp_browse', 'warn_unbound_application', 'quiet', 'type_output', 'read_only')
NUMS = {'pp_skip_comments': 4, 'log_level': 5, 'trace_stage': 4, 'traceback': 3}
CONST = {'PP_SKIP_COMMENTS_NONE': 0, 'PP_SKIP_C_COMMENTS': 1, 'PP_SKIP_PYTHON_COMMENTS': 2, 'PP_SKIP_COMMENTS_AUTO': 3,
         'LOG_LEVEL_DEBUG': 1, 'LOG_LEVEL_INFO': 2, 'LOG_LEVEL_WARNING': 3, 'LOG_LEVEL_ERROR': 4, 'LOG_LEVEL_CRITICAL': 5,
         'TRACE_STAGE_NONE': 0, 'TRACE_STAGE_PARSE': 1, 'TRACE_STAGE_EVAL': 2, 'TRACE_STAGE_ALL': 3,
         'TRACEBACK_NONE': 0, 'TRACEBACK_PYTHON': 1, 'TRACEBACK_ALL': 2}
PREFIX = {'pp_skip_comments': 'PP_SKIP', 'log_level': 'LOG_LEVEL_', 'trace_stage': 'TRACE_STAGE_', 'traceback': 'TRACEBACK_'}


def settings():
    return {'pp_skip_comments': config.pp_skip_comments, 'pp_trim_app_indent': config.pp_trim_app_indent,
            'pp_reduce_emptiness': config.pp_reduce_emptiness, 'pp_browse': config.pp_browse,
            'warn_unbound_application': config.warn_unbound_application, 'log_level': levels[-1] if levels else None, 'trace_stage': trace.stage,
            'traceback': yup.shell.traceback, 'quiet': yup.shell.quiet, 'type_output': yup.shell.type_output,
            'read_only': yup.shell.read_only, 'output_dir': yup.shell.output_dir, 'directory': config.directory, 'pp_define': config.pp_define}


levels = []
trace = yup.trace
yup.log.setLevel = lambda v: levels.append(v / 10)


def shake(rng):
    """Anything may be in force before."""
    yup._pp_configure({k: rng.choice([0, 1, 2, 3]) if k in NUMS else ['x'] if k in LISTS else rng.choice(['', 'old']) if k == 'output_dir' else
                       rng.random() < .5 for k in DEF if rng.random() < .6})
    del levels[:]


def same(a, b):
    return a == b and type(a) is type(b) or (isinstance(b, (int, float)) and not isinstance(b, bool) and a == b)


def compare(r, key, want, **info):
    got = settings()
    for k in DEF:
        if not r.check(same(got[k], want.get(k, DEF[k])), '%s:%s' % (key, k), 'an option has not the value of the most specific place',
                       option=k, got=got[k], expected=want.get(k, DEF[k]), **info):
            return


def script(rng, state, n=6):
    """( text, options after it, whether it fails )"""
    lines = ['# coding: utf8'] if rng.random() < .5 else []
    fails = False
    for _ in range(rng.randrange(n)):
        k = rng.choice([x for x in DEF if x != 'output_dir'] + ['dependency', 'force'])
        if k in LISTS:
            w = rng.choice(['append', 'append', 'set', 'wrong', 'del'])
            if w == 'append':
                lines.append('%s.append("p%d")' % (k, rng.randrange(9)))
                if k in state and isinstance(state[k], list):
                    state[k] = state[k] + [lines[-1].split('"')[1]]
                else:
                    fails = True
                    break
            elif w == 'set':
                v = ['q%d' % i for i in range(rng.randrange(3))]
                lines.append('%s = %r' % (k, v))
                state[k] = v
            elif w == 'wrong':
                v = rng.choice([None, 'dir', 5, True, ('a',), 1.5])
                lines.append('%s = %r' % (k, v))
                state[k] = v
            else:
                lines.append('del %s' % k)
                if k not in state:
                    fails = True
                    break
                del state[k]
        else:
            w = rng.choice(['right', 'right', 'name', 'wrong'])
            if w == 'wrong':
                v = rng.choice([None, 'yes', [1], 1.5, (1,)])
                lines.append('%s = %r' % (k, v))
            elif w == 'name' and k in PREFIX:
                c = rng.choice([c for c in CONST if c.startswith(PREFIX[k])])
                lines.append('%s = %s' % (k, c))
                v = CONST[c]
            else:
                v = rng.randrange(NUMS[k]) if k in NUMS else rng.random() < .5
                lines.append('%s = %r' % (k, v))
            state[k] = v
    if fails or rng.random() < .2:
        if not fails:
            lines.append(rng.choice(['1/0', 'raise ValueError("no")', 'undefined_name', 'import no_such_module', 'open("/nonexistent/x")', 'assert False',
                                     'raise Exception()', '"a".b', '[][1]', '{}["k"]', 'raise UnicodeError("u")']))
        fails = True
        lines.append('pp_browse = not pp_browse if "pp_browse" in dir() else True')
    return '\n'.join(lines) + '\n', fails


def yuconfig(r, rng):
    d = os.path.abspath('r')
    if os.path.isdir(d):
        shutil.rmtree(d)
    os.mkdir(d)
    here = os.getcwd()
    state = {k: [] for k in LISTS}
    g, gf = script(rng, state) if rng.random() < .8 else (None, False)
    s, sf = script(rng, state) if rng.random() < .8 else (None, False)
    bad = rng.random() < .05
    if bad:
        s, sf = 'x = (\n', True                             # (the file does not even compile: nothing of it is executed)
        state = None
    name = rng.choice(['f.py', 'f.yu', 'f', 'a.b.py', '.hidden', '.h.py', 'a b.c'])
    sub = rng.choice(['', '', 'sub/', 'sub.d/', './', './sub.d/', '../r/', os.path.join(d, 'sub.d/')])
    stem = os.path.splitext(name)[0]
    os.chdir(d)
    try:
        os.makedirs(sub or '.', exist_ok=True)
        for fn, t in (('.yuconfig', g), (sub + stem + '.yuconfig', s)):
            if t is not None:
                with open(fn, 'w') as f:
                    f.write(t)
        with open(sub + name, 'w') as f:
            f.write('text\n')
        r.case((g, s, name, sub))
        shake(rng)
        errors = []
        yup.log.error = lambda *a: errors.append(a)
        info = dict(directory_script=g, file_script=s, name=sub + name)
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                via = rng.random() < .7
                if via:
                    cfg = yup.shell_parse_yuconfig(sub + name)
                    yup._pp_configure(cfg)
                else:
                    cfg = None
                    with open(sub + name) as f:
                        yup.proc_stream(f, sub + name)
        except Exception as e:
            r.fail('stop:' + type(e).__name__, 'a configuration script stops the run', error=repr(e), **info)
            return
        n = len(errors)
        if via and not bad:
            r.check(n == (1 if gf else 0) + (1 if sf else 0), 'report', 'a failing script is not reported once', reports=errors, **info)
        if bad:
            r.check(n >= 1, 'report', 'a failing script is not reported once', reports=errors, **info)
            return
        want = {}
        for k, v in state.items():
            if k in LISTS:
                if isinstance(v, list):
                    want[k] = v
            elif isinstance(v, int):
                want[k] = v
        compare(r, 'yuconfig', want, **info)
        if cfg is not None:
            r.check(cfg.get('dependency', []) == want.get('dependency', []) and bool(cfg.get('force', False)) == bool(want.get('force', False)),
                    'dependency', 'dependency or force has not the value given', cfg={k: cfg.get(k) for k in ('dependency', 'force')}, **info)
    finally:
        os.chdir(here)


def cli(r, rng):
    args, want = [], {}
    for _ in range(rng.randrange(7)):
        k = rng.choice(list(DEF))
        if k in LISTS:
            v = 'v%d' % rng.randrange(5)
            args += [{'directory': '-d', 'pp_define': rng.choice(['-D', '--pp-define'])}[k], v]
            want[k] = want.get(k, []) + [v]
        elif k in NUMS:
            v = rng.randrange(NUMS[k]) + (k == 'log_level')
            f = {'pp_skip_comments': ['--pp-skip-comments'], 'log_level': ['-l', '--log'], 'trace_stage': ['-t', '--trace'],
                 'traceback': ['-b', '--traceback']}[k]
            args += [rng.choice(f), str(v)]
            want[k] = v
        elif k == 'output_dir':
            args += [rng.choice(['-o', '--output']), 'od']
            want[k] = 'od'
        else:
            on, off = {'pp_trim_app_indent': ('--pp-trim-app-indent', '--pp-no-trim-app-indent'),
                       'pp_reduce_emptiness': ('--pp-reduce-emptiness', '--pp-no-reduce-emptiness'),
                       'pp_browse': ('--pp-browse', '--pp-no-browse'), 'quiet': ('-q', None), 'type_output': ('--type-file', None),
                       'warn_unbound_application': ('-Wunbound', '-Wno-unbound'), 'read_only': (None, '--no-read-only')}[k]
            f = rng.choice([x for x in (on, off) if x])
            args.append(f)
            want[k] = f == on
    files = ['f%d' % i for i in range(rng.randint(1, 3))]
    r.case(tuple(args))
    shake(rng)
    info = dict(arguments=args)
    line = args + files
    if rng.random() < .3:
        with open('resp', 'w') as f:
            f.write(rng.choice([' ', '\n']).join(line))
        line = ['@resp']
    try:
        a = yup.shell_parse_cli_arguments(line)
        yup._pp_configure(a.__dict__)
    except (Exception, SystemExit) as e:
        r.fail('cli:' + type(e).__name__, 'documented arguments are refused', error=repr(e), **info)
        return
    compare(r, 'cli', want, **info)
    r.check(a.files == files, 'cli:files', 'the files are not those given', got=a.files, **info)


def define(r, rng):
    """Constants given with -D: NAME, or NAME:VALUE; the value is the text after the first colon."""
    names = ['A', 'BB', 'c_1', 'Long_Name', 'X']
    values = ['5', '0', '1.50', 'x y', 'b:c', ':', '"q"', "'q r'", 'C:/d', 'None', 'False', '\u00e9', '-1', 'a  b', '#', '%s', '1e5', '=']
    opts, want = [], {}
    for _ in range(rng.randrange(5)):
        k = rng.choice(names)
        sp = lambda: rng.choice(['', '', ' ', '\t', '  '])
        w = rng.choice(['value', 'value', 'value', 'name', 'empty', 'wrong'])
        if w == 'wrong':
            opts.append(rng.choice(['', '5' + k, k + ' ' + k + ':1', k + '-:3', ':' + k, '(' + k + '):4', ' ', '"%s":2' % k, k + '.' + k]))
            continue
        v = rng.choice(values) if w == 'value' else ''
        opts.append(sp() + k + sp() + ('' if w == 'name' else ':' + sp() + v + sp()))
        want[k] = v or 'True'
    use = [k for k in names if k in want]
    r.case(('define', tuple(opts)))
    info = dict(definitions=opts)
    try:
        yup._pp_configure({'pp_define': list(opts)})
        got = translate(''.join('[($%s)]' % k for k in use) + '.\n', 'd.yu', pp_define=config.pp_define)
    except Exception as e:
        r.fail('define:' + type(e).__name__, 'the definition of a constant stops the run', error=repr(e), **info)
        return
    r.check(got == ''.join('[%s]' % want[k] for k in use) + '.\n', 'define', 'a constant has not the value of its last definition', got=got, expected=want, **info)


def body(r):
    r.rule = '(directory script, file script, name) and (command line); each over random earlier settings'
    for a in ([], ['-q']):
        yup._pp_configure(dict(yup.shell_parse_cli_arguments(a + ['x']).__dict__))
    while r.left() > 0:
        for _ in range(10):
            yuconfig(r, r.rng)
            cli(r, r.rng)
            define(r, r.rng)


sys.stdout = open(os.devnull, 'w')
sys.stderr = open(os.devnull, 'w')
main(body)
