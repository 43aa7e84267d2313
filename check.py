#!/usr/bin/env python3-vt
"""check.py PROPERTY [quick|thorough]: decide one property on /repo's working tree.

1. Every unit of contracts/PROPERTY.py (a function of /repo under its contract) is
   read from /repo's current source, executed symbolically, and its obligations are
   discharged by z3 / cvc5 (pyvc/).
2. The same contracts are executed on the real code (rt/PROPERTY.py, under the
   interpreter of /repo) on generated inputs: this replays counterexamples and
   stands in, bounded, for anything left undecided.

Exit 0: held.  Exit 1 and a VIOLATION line: broken.  See DESIGN.md, Verdicts.
"""
import os
import sys
import json
import time
import subprocess
import importlib
import multiprocessing as mp
import tempfile
import shutil
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
PYPY = '/opt/venv/bin/python'
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)


def worker(prop, name, budget, conn):
    """One unit, in its own process."""
    out = {'unit': name, 'status': 'undecided', 'obs': [], 'why': None}
    t = time.time()
    try:
        from pyvc.engine import Engine, Program
        from pyvc.values import Builtin, Unsupported
        M = importlib.import_module('contracts.' + prop)
        run = dict(M.UNITS)[name]
        I = Engine(Program(REPO), budget=budget)
        keep = getattr(M, 'keep', None)
        try:
            info = run(I)
            out.update(paths=info['paths'], restarts=info['restarts'])
            why = None
        except Unsupported as e:
            why = 'outside the subset: %s (line %s)' % (e, I.lineno)
        except Exception as e:
            why = 'verifier: %s: %s (line %s)' % (type(e).__name__, e, I.lineno)
            out['tb'] = traceback.format_exc()[-1500:]
        # a contract of a function that is not there (any more) binds nothing
        defs = [I.prog.module(m).defs for m in ('pp.yugen', 'pp.yup')]
        gone = sorted(n for n, v in I.overrides.items() if isinstance(n, str) and isinstance(v, Builtin) and n[:1] == '_' and n[:2] != '__'
                      and not any(n in d for d in defs))
        if gone and why is None:
            why = 'no function %s to put under contract' % ', '.join(gone)
        obs = []
        for o in getattr(I, 'obs', []):
            if keep is not None and not keep(o.label):
                continue
            d = {'label': o.label, 'status': o.status, 'time': round(o.time, 4), 'backend': o.backend, 'cut': o.cut}
            if gone:
                d['cut'] = d['cut'] or 1
            if o.status != 'proved':
                d['where'] = o.where[0] if isinstance(o.where, tuple) else o.where
                d['trail'] = str(o.trail)[:300]
                if o.model is not None:
                    d['model'] = str(o.model)[:3000]
                d['smt'] = (o.smt or '')[:6000]
            obs.append(d)
        out.update(obs=obs, why=why, stats=I.stats, inlined=sorted(I.inlined), used=sorted(I.used_contracts),
                   assumptions=sorted(I.assumptions), covers=dict(getattr(I, 'covers', {})),
                   facts=getattr(M, 'facts', lambda I: None)(I))
        if why is None:
            bad = [o for o in obs if o['status'] != 'proved']
            dead = [c for c, v in out['covers'].items() if v != 'sat']
            dead += ['the body of loop %s of %s' % (k[1][1], k[1][0]) for k, v in I.bodies.items() if not v]
            if not obs:
                out['why'] = 'no obligation'
            elif bad:
                ref = [o for o in bad if o['status'] == 'refuted']
                out['status'] = 'refuted' if ref else 'undecided'
                out['why'] = '%d obligation(s) not discharged: %s' % (len(bad), '; '.join(sorted(set(o['label'] for o in bad)))[:400])
            elif dead:
                out['why'] = 'unreachable: ' + ', '.join(dead)
            else:
                out['status'] = 'proved'
    except BaseException as e:
        out['why'] = 'verifier: %s: %s' % (type(e).__name__, e)
        out['tb'] = traceback.format_exc()[-1500:]
    out['wall'] = round(time.time() - t, 2)
    try:
        conn.send(out)
    except Exception:
        pass
    conn.close()


def run_units(prop, names, budget, jobs, limit):
    ctx = mp.get_context('fork')
    t0 = time.time()
    queue = list(names)
    live, res = {}, {}
    while queue or live:
        while queue and len(live) < jobs:
            n = queue.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=worker, args=(prop, n, budget, b))
            p.start()
            b.close()
            live[n] = (p, a, time.time())
        for n, (p, a, t) in list(live.items()):
            if a.poll(0.02):
                try:
                    res[n] = a.recv()
                except EOFError:
                    res[n] = {'unit': n, 'status': 'undecided', 'obs': [], 'why': 'the verifier process ended'}
                p.join(5)
                del live[n]
            elif time.time() - t > budget + 60 or time.time() - t0 > limit:
                p.kill()
                p.join()
                res[n] = {'unit': n, 'status': 'undecided', 'obs': [], 'why': 'time budget exceeded'}
                del live[n]
        if time.time() - t0 > limit:
            for n in queue:
                res[n] = {'unit': n, 'status': 'undecided', 'obs': [], 'why': 'time budget exceeded'}
            queue = []
    return [res[n] for n in names]


class RT:
    """The executable contracts on the real code, in a scratch directory."""

    def __init__(self, prop, seed, budget, tier):
        self.dir = tempfile.mkdtemp(prefix='yuppv.')
        self.out = os.path.join(self.dir, 'rt.json')
        self.script = os.path.join(HERE, 'rt', prop + '.py')
        self.budget = budget
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', PYTHONPATH=HERE, YUPP_REPO=REPO,
                   HOME=self.dir, TMPDIR=self.dir)
        self.p = None
        if os.path.exists(self.script):
            w = os.path.join(self.dir, 'w')
            os.mkdir(w)
            self.err = open(os.path.join(self.dir, 'err'), 'w+')
            self.p = subprocess.Popen([PYPY, self.script, str(seed), str(budget), tier, self.out], cwd=w, env=env,
                                      stdout=subprocess.DEVNULL, stderr=self.err, stdin=subprocess.DEVNULL)

    def result(self):
        if self.p is None:
            return {'evaluations': 0, 'distinct': 0, 'failures': [], 'samples': [], 'rule': '', 'error': 'no run-time oracle'}
        try:
            self.p.wait(self.budget * 2 + 90)
        except subprocess.TimeoutExpired:
            self.p.kill()
            self.p.wait()
        try:
            with open(self.out) as f:
                r = json.load(f)
        except Exception:
            self.err.seek(0)
            r = {'evaluations': 0, 'distinct': 0, 'failures': [], 'samples': [], 'rule': '',
                 'error': 'the run-time oracle gave no result: ' + self.err.read()[-1500:]}
        self.err.close()
        shutil.rmtree(self.dir, ignore_errors=True)
        return r


def known(prop):
    p = os.path.join(HERE, 'known_findings.json')
    with open(p) as f:
        d = json.load(f)
    return {k['key']: k['what'] for k in d.get('findings', []) if k['property'] == prop}


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER') or (sys.argv[2] if len(sys.argv) > 2 else 'quick')
    if len(sys.argv) > 2 and sys.argv[2] in ('quick', 'thorough'):
        tier = sys.argv[2]
    seed = int(os.environ.get('VERIF_SEED') or 1)
    t0 = time.time()
    thorough = tier == 'thorough'
    rt = RT(prop, seed, 150 if thorough else 12, tier)
    names, M, broken = [], None, None
    try:
        M = importlib.import_module('contracts.' + prop)
        names = [n for n, _ in M.UNITS]
    except ImportError as e:
        print('%s: the contracts cannot be loaded (%s); run with python3-vt' % (prop, e))
        return 2
    heavy = getattr(M, 'HEAVY', ())
    names.sort(key=lambda n: (heavy.index(n) if n in heavy else len(heavy)))
    jobs = max(2, min(8, os.cpu_count() or 8))
    units = run_units(prop, names, 300 if thorough else 160, jobs, 600 if thorough else 420) if names else []
    final = getattr(M, 'final', None)
    if final is not None:
        u = {'unit': 'lemmas over the contracts', 'status': 'proved', 'obs': [], 'why': None, 'stats': {}, 'wall': 0}
        if all(x['status'] != 'undecided' for x in units):
            try:
                for label, ok, note in final(units):
                    u['obs'].append({'label': label, 'status': 'proved' if ok else 'unknown', 'time': 0, 'backend': 'evaluation',
                                     'cut': 0, 'where': note})
                    if not ok:
                        u['status'], u['why'] = 'undecided', '%s: %s' % (label, note)
            except Exception as e:
                u['status'], u['why'] = 'undecided', 'verifier: %s: %s' % (type(e).__name__, e)
        else:
            u['status'], u['why'] = 'undecided', 'a unit is undecided'
        units.append(u)
    r = rt.result()
    undone = [u for u in units if u['status'] != 'proved']
    if not r['failures'] and (undone or r.get('error')):
        # obligations left: search for a failing input on the real code
        left = 760 - (time.time() - t0)
        r2 = RT(prop, seed + 1000, max(5, min(90 if not thorough else 200, left / 3)), tier).result()
        for k in ('evaluations', 'distinct'):
            r2[k] += r[k]
        r = r2
    # verdict
    kf = known(prop)
    fresh, seen_known = [], []
    for f in r['failures']:
        if f['key'] in kf:
            seen_known.append(f)
        else:
            fresh.append(f)
    refuted = [(u, o) for u in units for o in u['obs'] if o['status'] == 'refuted' and not o['cut']]
    os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    rc, lines = 0, []
    for f in seen_known:
        lines.append('KNOWN-FINDING: property=%s %s' % (prop, kf[f['key']]))
    path = os.path.join(HERE, 'replays', prop + '.json')
    if fresh:
        with open(path, 'w') as f:
            json.dump({'property': prop, 'kind': 'input', 'failures': fresh[:20], 'replay': 'the "data" of a failure is the input; '
                       'rerun: VERIF_SEED=%d python3-vt check.py %s' % (seed, prop),
                       'obligations': [dict(o, unit=u['unit']) for u in units for o in u['obs'] if o['status'] != 'proved'][:10]}, f, indent=1)
        lines.append('VIOLATION property=%s replay=%s' % (prop, path))
        rc = 1
    elif refuted:
        with open(path, 'w') as f:
            json.dump({'property': prop, 'kind': 'obligation', 'obligations': [dict(o, unit=u['unit']) for u, o in refuted[:20]]}, f, indent=1)
        lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, path))
        rc = 1
    obs = [o for u in units for o in u['obs']]
    done = [o for o in obs if o['status'] == 'proved']
    by = {}
    for o in done:
        by[o['backend'] or '?'] = by.get(o['backend'] or '?', 0) + 1
    level = getattr(M, 'LEVEL', 'proof') if M else 'other'
    cov = {
        'obligations': len(obs), 'discharged': len(done),
        'checker_cmd': 'python3-vt check.py %s %s' % (prop, tier),
        'trusted_base': getattr(M, 'TRUSTED', []) + ['pyvc (the verifier of this repository)', 'z3 4.x / cvc5 1.1.2'] if M else [],
        'by_backend': by,
        'solver_s': round(sum((u.get('stats') or {}).get('solver_s', 0) for u in units), 1),
        'functions_under_contract': {u['unit']: {'status': u['status'], 'obligations': len(u['obs']), 'wall_s': u.get('wall'),
                                                 'paths': u.get('paths'), 'why': u.get('why')} for u in units},
        'inlined': sorted({x for u in units for x in u.get('inlined', ())}),
        'callee_contracts_used': sorted({x for u in units for x in u.get('used', ())}),
        'not_proved': [{'unit': u['unit'], 'why': u['why']} for u in undone],
        'bounded': getattr(M, 'BOUNDED', []) if M else [broken],
        'evaluations': r['evaluations'], 'distinct_nontrivial': r['distinct'], 'rule': r['rule'], 'samples': r['samples'][:5],
        'rt_error': r.get('error'),
        'explanation': getattr(M, 'EXPLANATION', (M.__doc__ or '').strip()) if M else 'bounded run-time contracts only',
    }
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov,
          'assumptions': sorted(set(getattr(M, 'ASSUMPTIONS', [])) | {x for u in units for x in u.get('assumptions', ())}),
          'wall_s': round(time.time() - t0, 1), 'violations': len(fresh) or (1 if rc else 0)}
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s: %d/%d obligations discharged in %d units (%d proved); %d run-time evaluations; %.1f s' % (
        prop, len(done), len(obs), len(units), len(units) - len(undone), r['evaluations'], time.time() - t0))
    for u in undone:
        print('  not proved: %s: %s' % (u['unit'], u['why']))
    if r.get('error'):
        print('  ' + r['error'])
    for u, o in refuted[:10]:
        print('  failed obligation: %s: %s (line %s)' % (u['unit'], o['label'], o['where']))
    for f in fresh[:5]:
        print('  failing input: %s' % json.dumps(f)[:600])
    for l in lines:
        print(l)
    sys.stdout.flush()
    return rc


if __name__ == '__main__':
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
