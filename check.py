#!/usr/bin/env python3
"""
check.py PROPERTY [--tier quick|thorough] [--jobs N] [--only SUBSTR]

Decides one property by symbolic execution of the real code in /repo (see
DESIGN.md).  Exit 0: held on everything explored (parts that could not be decided are
listed).  Exit 1: a VIOLATION line.  Exit 2: most parts could not be decided
(unknown, bound hit, counterexample not reproduced).
"""
import argparse
import faulthandler
import json
import multiprocessing as mp
import os
import random
import signal
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
PY = '/opt/veriftools/pyvenv/bin/python'
if sys.version_info[:2] < (3, 12) or not os.path.exists(
        os.path.join(sys.prefix, 'lib')) or 'pyvenv' not in sys.prefix:
    if os.path.exists(PY) and not os.environ.get('VERIF_REEXEC'):
        os.environ['VERIF_REEXEC'] = '1'
        os.environ['PYTHONHASHSEED'] = '0'
        os.execv(PY, [PY] + sys.argv)

import registry  # noqa


def one(job, seed=0):
    (module, func, cfg, budget, tier, known) = job
    try:
        from symx.drive import JobRunner
        from symx import core
        core.set_seed(seed)
        thorough = tier == 'thorough'
        r = JobRunner(module, func, cfg, budget=budget,
                      validate=24 if thorough else 6,
                      cross=thorough, query_timeout=60 if thorough else 30,
                      known=known).run()
        return r
    except BaseException as e:
        import traceback
        return nothing(job, 'error %r %s' % (
            e, traceback.format_exc()[-1500:]))


def nothing(job, why):
    return {'module': job[0], 'func': job[1], 'cfg': job[2], 'violations': [],
            'known': [], 'inconclusive': [why], 'reduced': [], 'stats': {},
            'labels': {}, 'samples': [], 'touched': [], 'wall': 0}


def die_with_parent():
    try:
        import ctypes
        ctypes.CDLL(None).prctl(1, signal.SIGKILL)
    except Exception:
        pass


class Worker:
    """a process that decides jobs, killed when it takes too long: some
    solver calls do not return"""

    def __init__(self):
        ctx = mp.get_context('fork')
        self.conn, c = ctx.Pipe()
        self.p = ctx.Process(target=self.loop, args=(c,), daemon=True)
        self.p.start()
        c.close()
        self.job = None
        self.n = 0

    def loop(self, c):
        os.setsid()
        die_with_parent()
        self.conn.close()
        os.environ['SYMX_WORKER'] = '1'
        faulthandler.register(signal.SIGUSR1, all_threads=True)
        while True:
            try:
                job, seed = c.recv()
            except (EOFError, OSError):
                break
            r = one(job, seed)
            c.send(json.loads(json.dumps(r, default=str)))
        from symx.drive import stop_worker
        stop_worker()
        os._exit(0)

    def give(self, i, job, seed, limit):
        self.job, self.seed, self.i, self.n = job, seed, i, self.n + 1
        self.until = time.time() + limit
        self.conn.send((job, seed))

    def poll(self):
        """None: busy, or (result, worker is usable)"""
        try:
            if self.conn.poll():
                return self.conn.recv(), True
        except (EOFError, OSError):
            pass
        if not self.p.is_alive():
            return nothing(self.job, 'the process died'), False
        if time.time() > self.until:
            self.kill()
            return nothing(self.job, 'the solver does not return'), False
        return None

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass
        self.p.kill()
        self.p.join(5)


def run_jobs(jobs, nproc, end, report, first):
    """results of the jobs; stops at the first violation"""
    todo = [(i, j, 0) for i, j in enumerate(jobs)]
    busy, idle, res = [], [], []
    late = False
    try:
        while (todo or busy) and not late:
            while todo and len(busy) < nproc:
                w = idle.pop() if idle else Worker()
                i, j, seed = todo.pop(0)
                left = end - time.time()
                # a first attempt leaves time for another one
                b = min(j[3], left - 5) if seed else min(
                    j[3], left * .6, first)
                w.give(i, j[:3] + (max(b, 5),) + j[4:], seed, max(b, 5) + 15)
                busy.append(w)
            done = False
            for w in list(busy):
                r = w.poll()
                if r is None:
                    continue
                done = True
                busy.remove(w)
                r, ok = r
                if ok and w.n < 8:
                    idle.append(w)
                else:
                    w.kill()
                if r['inconclusive'] and not r['violations'] and (
                        not w.seed and end - time.time() > 30):
                    todo.append((w.i, jobs[w.i], 1))
                    continue
                res.append(r)
                report(r)
                if r['violations']:
                    return res
            if time.time() > end:
                late = True
            if not done:
                time.sleep(0.02)
        for w in busy:
            res.append(nothing(w.job, 'out of time'))
        for i, j, seed in todo:
            res.append(nothing(j, 'out of time'))
    finally:
        for w in busy + idle:
            w.kill()
    return res


def load_known(pid):
    p = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get('findings', [])
            if k['property'] == pid]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--jobs', type=int, default=min(8, os.cpu_count() or 4))
    ap.add_argument('--only', default='')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    pid, tier = a.pid, a.tier
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    limit = 780 if tier == 'quick' else 840
    prop = registry.PROPS[pid]
    known = load_known(pid)
    jobs = []
    for (m, f, cfg) in prop['jobs'](tier):
        if a.only and a.only not in '%s.%s %s' % (m, f, cfg):
            continue
        jobs.append((m, f, cfg, limit - 60, tier, known))
    random.Random(0).shuffle(jobs)

    def report(r):
        if a.v:
            print('%s.%s %s paths=%s checks=%s %.1fs%s' % (
                r['module'], r['func'], r['cfg'],
                r['stats'].get('paths'), r['stats'].get('checks'),
                r['wall'], ' INC' if r['inconclusive'] else ''),
                flush=True)
    res = run_jobs(jobs, min(a.jobs, len(jobs)), t0 + limit, report,
                   240 if tier == 'quick' else 500)
    viol = [v for r in res for v in r['violations']]
    wall = time.time() - t0
    inc = [(r['module'], r['func'], r['cfg'], x) for r in res
           for x in r['inconclusive']]
    ev = evidence(pid, prop, tier, seed, jobs, res, viol, inc, wall)
    evd = os.path.join(HERE, 'evidence')
    os.makedirs(os.path.join(evd, 'replays'), exist_ok=True)
    with open(os.path.join(evd, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)

    hit = {}
    for r in res:
        for k in r['known']:
            hit[(k['func'], k['sym_label'])] = k
    for k in known:
        print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    c = ev['coverage']
    print('%s %s: %d jobs, %d paths, %d checks, %d solver queries (%.1f s), '
          '%d functions encoded, %d traces validated, %.1f s' % (
              pid, tier, len(res), c['states'], c['checks'],
              c['queries'], c['solver_s'], len(c['functions_encoded']),
              c['traces_validated_against_impl'], wall))
    if c['reduced_paths']:
        print('note: %d paths outside the encoding, run concretely: %s' % (
            c['reduced_paths'], c['reduced_reasons'][:3]))
    if viol:
        for n, v in enumerate(viol[:3]):
            p = os.path.join(evd, 'replays', '%s-%d.json' % (pid, n))
            with open(p, 'w') as f:
                json.dump(v, f, indent=1, default=str)
            print('  %s.%s %s' % (v['module'], v['func'], v['cfg']))
            print('  failed: %s (%s)' % (v['label'], v['exc'] or ''))
            print('  inputs: %s' % json.dumps(v['model'], default=str)[:1500])
            print('  replay: /opt/venv/bin/python %s replay %s' % (
                os.path.join(HERE, 'symx', 'conc.py'), p))
            print('VIOLATION property=%s replay=%s' % (pid, p), flush=True)
        return 1
    if inc:
        for x in inc[:6]:
            print('INCONCLUSIVE %s.%s %s: %s' % tuple(
                str(y)[:1500] for y in x))
        bad = sum(1 for r in res if r['inconclusive'])
        print('not decided: %d of %d parts (listed in the evidence); nothing '
              'is claimed for them' % (bad, len(res)))
        return 2 if 2 * bad > len(res) else 0
    return 0


def evidence(pid, prop, tier, seed, jobs, res, viol, inc, wall):
    def s(k):
        return sum(r['stats'].get(k, 0) for r in res)
    touched = sorted(set(tuple(t) for r in res for t in r['touched']))
    labels = {}
    samples = []
    for r in res:
        for k, n in r['labels'].items():
            labels[k] = labels.get(k, 0) + n
        for x in r['samples'][:1]:
            if len(samples) < 8:
                samples.append({'harness': r['func'], **x})
    cov = {
        'states': int(s('paths')),
        'transitions': int(s('branches')) + int(s('paths')),
        'traces_validated_against_impl': int(s('traces_validated')),
        'samples': samples,
        'trace_mismatches': int(s('trace_mismatch')),
        'checks': int(s('checks')),
        'queries': int(s('queries') + s('branch_queries')),
        'assertions_discharged_by_solver': int(s('discharged')),
        'assertions_true_by_rewriting': int(s('checks_by_rewriting')),
        'equalities_decided_by_rewriting_and_confirmed_by_solver':
            int(s('confirmed')),
        'equalities_decided_by_rewriting_only': int(s('unconfirmed')),
        'confirming_queries': int(s('confirming_queries')),
        'assertions_violated': int(s('sat')),
        'solver_s': round(s('solver_s'), 3),
        'max_query_s': max([r['stats'].get('max_query_s', 0) for r in res]
                           or [0]),
        'cross_checked_by_cvc5': int(s('cvc5_cross_unsat')),
        'infeasible_paths': int(s('infeasible')),
        'reduced_paths': int(s('reduced_paths')),
        'reduced_reasons': sorted(set(
            x for r in res for x in r['reduced']))[:10],
        'functions_encoded': ['%s:%s' % t for t in touched],
        'jobs': [{'harness': '%s.%s' % (r['module'], r['func']),
                  'bounds': r['cfg'], 'paths': r['stats'].get('paths', 0),
                  'checks': r['stats'].get('checks', 0),
                  'wall_s': round(r['wall'], 2)} for r in res],
        'assertion_labels': labels,
        'bounds': prop['bounds'],
        'inconclusive': [str(x)[:300] for x in inc[:10]],
        'states_are': 'feasible symbolic paths explored to the end; '
                      'transitions: solver-decided branch decisions',
    }
    return {'property': pid, 'tier': tier if tier in ('quick', 'thorough')
            else 'quick', 'seed': seed, 'level': 'model_checking',
            'coverage': cov, 'assumptions': registry.COMMON_ASSUMPTIONS
            + prop.get('assumptions', []), 'wall_s': round(wall, 2),
            'violations': len(viol)}


if __name__ == '__main__':
    sys.exit(main())
