"""C20 at run time: sequences of files preprocessed in one process; the result of every file is
compared with that of a process which has preprocessed nothing else."""
import pickle
import io
import re
import shutil
from yu import *

BAD = ['($raise %(n)d)', '($set', '($nosuch%(n)d 1)', '($add "q" %(n)d)', '($reduce add ($v%(a)d) 0)', '($m%(a)d 7)', '($f%(a)d 2)', '($import nothing)']

BITS = [
    '($set v%(a)d %(n)d)', '($v%(a)d)', '($set f%(a)d \\x.($add x %(n)d))', '($f%(a)d)', '($ __FILE__)', '($ __OUTPUT_FILE__)',
    '($ __MODULE_NAME__)', '($ __PASSAGE__)', '($import lib%(a)d)', '($import "lib%(a)d.yu")', '($import "s%(a)d.py")', '($g%(a)d)', '($ D%(a)d)',
    '($macro m%(a)d (P) [($P) %(n)d])', '($macro m%(a)d (P) [($P) %(n)d])($m%(a)d 7)', '($ (1 2 %(n)d) \\x.[($x);\n])', '/* ($add 1 2) */', '# ($add 1 2)\n', 'text %(n)d\n\n\n', '($ 0 ? 1 | %(n)d)', '($set __OUTPUT_FILE__ "o%(a)d.c")',
    '($unq {len(builtin)})', '($unq {builtin.get("g%(a)d", 5)})', '($ __PASSAGE__ (1 2))', '($ __PASSAGE__ (3 4))', '($__REPEAT__)', '($ REPEAT)', '($import {"($set v%(a)d 3)"})',
    '($unq {str(len(yushell.inclusion))})', '($unq {str(sorted(map(str, yushell.source)))})', '($ \\x.\\y.[($x)($y)] %(n)d)',
    '"str"', "'''doc'''", '#!/usr/bin/python\n# coding: yupp\n', '($skip)', '($lazy (1 2))', '\t($\\x.[\n  a\n  b] 1)\n', '($emit v%(a)d)', '($set v%(a)d (1 2 3))',
    '($unq {yushell.shrink})', '($unq {str(feedback.output_file) + str(feedback.repeat)})', '($unq {len(RESULT.files)})',
]


last = [None]


def program(rng, bits):
    out = ''
    if rng.random() < .2:
        out = '#!/usr/bin/python\n# coding: yupp\n'
    for _ in range(rng.randrange(1, 9)):
        out += rng.choice(bits if rng.random() < .96 else BAD) % dict(a=rng.randrange(3), n=rng.randrange(10)) + rng.choice(['', '\n', ' ', ';\n'])
    return out


def run(job):
    fn, fo, text, opts = job
    if opts is not last[0]:
        # as the command line does: the options are set once for files that share them
        last[0] = opts
        for k, v in opts.items():
            setattr(config, k, list(v) if isinstance(v, list) else v)
    out = []
    try:
        limit(20)
        yugen.yushell(text, fn, fo)
        yugen.yuinit()
        ok, plain = yup._pp()
        out = [ok, re.sub('0x[0-9a-f]+', '0x', str(plain)), getattr(plain, 'browse', None), getattr(plain, 'offset', None), sorted(RESULT.files, key=RESULT.files.get),
               feedback.output_file, feedback.repeat, yushell.shrink]
    except Timeout:
        out = ['endless']
    except Exception as e:
        out = ['error', type(e).__name__, str(e)]
    finally:
        unlimit()
    return out


def series(jobs):
    """The results of files, in a process that has preprocessed nothing before them."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            with os.fdopen(w, 'wb') as f:
                pickle.dump([run(j) for j in jobs], f)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        d = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(d) if d else ['nothing'] * len(jobs)


def body(r):
    root = os.path.abspath('files')
    r.rule = 'random sequences of files in one process against every file on its own; distinct by text and names'
    rng = r.rng
    n = 0
    while r.left() > 0:
        if os.path.isdir(root):
            shutil.rmtree(root)
        dirs = [os.path.join(root, d) for d in ('p', 'q')]
        for d in dirs:
            os.makedirs(d)
            for i in range(3):
                if rng.random() < .25:
                    continue
                with open(os.path.join(d, 'lib%d.yu' % i), 'w') as f:
                    f.write('($set v%d %d)' % (rng.randrange(3), rng.randrange(10)) + rng.choice(['', 'lib', '($set f%d \\x.($add x 5))' % i]))
                with open(os.path.join(d, 's%d.py' % i), 'w') as f:
                    k = rng.randrange(3)
                    f.write('def g%d(): return %d\n' % (k, rng.randrange(100)) + rng.choice(['', 'A = %d\n' % i, 'try: A += 1\nexcept NameError: A = 1\ndef g%d(): return A\n' % rng.randrange(3)]))
        jobs = []
        bits = rng.sample(BITS, 6) + rng.choice([[], ['($import "s%(a)d.py")', '($g%(a)d)']])
        common = None
        for _ in range(8):
            d = rng.choice(dirs)
            name = rng.choice(['a', 'b-c'])
            ext = rng.choice(['.c', '.c', '.py', '.txt'])
            fn = rng.choice([os.path.join(d, name + '.yu' + ext), os.path.join(d, name + '.yu' + ext), None])
            opts = dict(pp_skip_comments=rng.choice([0, 0, 1, 2, 3]), pp_browse=rng.random() < .3, pp_trim_app_indent=rng.random() < .8, pp_reduce_emptiness=rng.random() < .7,
                        pp_define=rng.choice([[], ['D1'], ['D0:5', 'D2'], ['v0:7']]), warn_unbound_application=False, directory=rng.choice([[], [dirs[0]], [dirs[1]]]), passage=rng.choice([0, 0, 1]))
            if common is None and rng.random() < .5:
                common = opts
            if common is not None and rng.random() < .8:
                opts = common
            jobs.append((fn, os.path.join(d, name + ext) if fn else None, program(rng, bits), opts))
        alone = [series([j])[0] for j in jobs]
        for _ in range(4):
            order = list(range(len(jobs)))
            rng.shuffle(order)
            r.case(repr([jobs[i] for i in order]))
            got = series([jobs[i] for i in order])
            for k, i in enumerate(order):
                if 'endless' in (alone[i][0], got[k][0]) or got[k] == alone[i]:
                    continue
                r.fail('left over', 'the result of a file depends on the files before it', before=[jobs[x] for x in order[:k]], file=jobs[i], got=got[k], alone=alone[i])
                return


main(body)
