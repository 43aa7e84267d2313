"""Run-time contracts: the same postconditions, executed on the real code of /repo."""
import sys
import os
import re
import json
import time
import random
import logging
import signal

sys.dont_write_bytecode = True
REPO = os.environ.get('YUPP_REPO', '/repo')
sys.path.insert(0, REPO)


class Stop(Exception):
    pass


class Absent(Exception):
    """An inner function the oracle calls is not there (under this name): the oracle cannot decide."""


class R:
    def __init__(self):
        self.seed = int(sys.argv[1]) if len(sys.argv) > 1 else 1
        self.budget = float(sys.argv[2]) if len(sys.argv) > 2 else 10
        self.tier = sys.argv[3] if len(sys.argv) > 3 else 'quick'
        self.out = sys.argv[4] if len(sys.argv) > 4 else None
        self.rng = random.Random(self.seed)
        self.t0 = time.time()
        self.n = 0
        self.keys = set()
        self.failures = []
        self.fkeys = set()
        self.samples = []
        self.rule = ''

    def left(self):
        return self.budget - (time.time() - self.t0)

    def case(self, key, sample=None):
        """One evaluation; key identifies the case."""
        self.n += 1
        signal.setitimer(signal.ITIMER_PROF, ENDLESS)
        h = hash(key)
        if h not in self.keys:
            self.keys.add(h)
            if len(self.samples) < 5 and (len(self.keys) in (1, 20, 100, 500, 2000)):
                self.samples.append(sample if sample is not None else repr(key)[:300])

    def fail(self, key, what, **data):
        if key in self.fkeys:
            return
        if re.search(r"module '[\w.]*' has no attribute '_", str(data.get('error', ''))):
            raise Absent(data['error'])
        self.fkeys.add(key)
        self.failures.append({'key': key, 'what': what, 'data': {k: repr(v)[:2000] for k, v in data.items()}})
        if len(self.failures) > 30:
            raise Stop()

    def check(self, cond, key, what, **data):
        if not cond:
            self.fail(key, what, **data)
        return cond

    def finish(self, error=None):
        d = {'evaluations': self.n, 'distinct': len(self.keys), 'failures': self.failures, 'samples': self.samples,
             'rule': self.rule}
        if error:
            d['error'] = error
        if self.out:
            with open(self.out + '.tmp', 'w') as f:
                json.dump(d, f)
            os.rename(self.out + '.tmp', self.out)
        else:
            json.dump(d, sys.stdout, indent=1)
            print()


ENDLESS = 40  # processor time, seconds; an evaluation takes less than one


def watch(r):
    """An evaluation of the real code that does not come to an end is a failure."""
    def late(sig, frame):
        stack, data, f = [], {}, frame
        while f is not None:
            fn = f.f_code.co_filename
            stack.append('%s:%d %s' % (os.path.basename(fn), f.f_lineno, f.f_code.co_name))
            if os.path.dirname(os.path.abspath(fn)) == os.path.dirname(os.path.abspath(__file__)) and not data:
                data = {k: v for k, v in f.f_locals.items() if isinstance(v, (str, int, float, list, tuple, dict))}
            f = f.f_back
        real = [x for x in stack if x.split(':')[0] in CODE]
        if real:
            try:
                r.fail('no end', 'the evaluation does not come to an end: %s' % real[0], stack=stack[:12], **{'at_' + str(k): v for k, v in data.items()})
            except Stop:
                pass
            r.finish()
        else:
            r.finish('oracle: no end: %s' % stack[:6])
        os._exit(0)
    signal.signal(signal.SIGPROF, late)
    signal.setitimer(signal.ITIMER_PROF, ENDLESS)


CODE = ('yugen.py', 'yup.py', 'yuconfig.py', 'yutraceback3.py', 'yupp.py')


def main(body):
    """body( r ) runs the cases until r.left() <= 0."""
    r = R()
    err = None
    watch(r)
    try:
        body(r)
    except Stop:
        pass
    except BaseException as e:
        import traceback
        err = 'oracle: ' + traceback.format_exc()[-1500:]
    r.finish(err)
    sys.stdout.flush()
    os._exit(0)


def quiet():
    logging.disable(logging.CRITICAL)
