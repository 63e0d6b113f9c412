"""runs one job (harness function x configuration) symbolically"""
import importlib
import json
import math
import os
import select
import subprocess
import sys
import time
import traceback

from . import core as C
from .core import ENG
from .env import SymEnv, Stop

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REALPY = '/opt/venv/bin/python'

_worker = {'p': None}


class WorkerError(Exception):
    pass


def call_worker(req, timeout=240):
    for attempt in range(2):
        p = _worker['p']
        if p is None or p.poll() is not None:
            env = dict(os.environ)
            env.pop('PYTHONPATH', None)
            p = subprocess.Popen(
                [REALPY, os.path.join(HERE, 'symx', 'conc.py')],
                stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                stderr=subprocess.DEVNULL, text=True, env=env)
            _worker['p'] = p
        try:
            p.stdin.write(json.dumps(req) + '\n')
            p.stdin.flush()
            r, _, _ = select.select([p.stdout], [], [], timeout)
            line = p.stdout.readline() if r else ''
        except (BrokenPipeError, OSError):
            line = ''
        if line:
            return json.loads(line)
        p.kill()
        p.wait()
        _worker['p'] = None
    raise WorkerError('replay worker died or timed out')


def stop_worker():
    p = _worker['p']
    if p is not None and p.poll() is None:
        p.kill()
        p.wait()
    _worker['p'] = None


def jnum(v):
    if isinstance(v, C.Fraction):
        return v.numerator if v.denominator == 1 else float(v)
    return v


def model_inputs(m):
    out = {}
    for name, v in ENG.inputs.items():
        if isinstance(v, C.SReal):
            out[name] = jnum(C.z3val(m.eval(C.zr(v.n), model_completion=True)))
        else:
            out[name] = jnum(C.z3val(m.eval(v.t, model_completion=True)))
    return out


def nice_models(constraints, n=3, budget=12.0):
    """yield models with inputs on a coarse grid first"""
    t_end = time.time() + budget
    z3 = C.z3
    reals = [(k, v.n) for k, v in ENG.inputs.items() if isinstance(v, C.SReal)
             and not isinstance(v.n, C.Fraction)]
    for grid, box in ((1, 8), (4, 64), (16, 1024)):
        if time.time() > t_end:
            return
        s = z3.Solver()
        s.set('timeout', 2500)
        s.add(*constraints)
        for k, t in reals:
            i = z3.Int('grid!' + k)
            s.add(t * grid == z3.ToReal(i), i <= box * grid, i >= -box * grid)
        try:
            if C.timed_check(s, 4) == z3.sat:
                yield s.model()
        except z3.Z3Exception:
            pass
    s = z3.Solver()
    s.set('timeout', 3000)
    s.add(*constraints)
    for k, t in reals:
        s.add(t <= 1024, t >= -1024)
    if C.timed_check(s, 5) == z3.sat:
        yield s.model()


def exact_medians(mm, constraints):
    """the same inputs, with the medians that were abstracted put in; None if
    that leaves the path"""
    z3 = C.z3
    s = z3.Solver()
    s.set('timeout', 3000)
    s.add(*constraints)
    for v in ENG.inputs.values():
        t = v.n if isinstance(v, C.SReal) else v.t
        if not isinstance(t, C.Fraction):
            s.add(t == mm.eval(t, model_completion=True))
    for sym, vals in ENG.medians:
        try:
            x = sorted(C.meval(mm, v) for v in vals)
        except (ValueError, ZeroDivisionError, z3.Z3Exception):
            return None
        n = len(x)
        m = C.Fraction(x[n // 2]) if n % 2 else (
            C.Fraction(x[n // 2 - 1]) + C.Fraction(x[n // 2])) / 2
        s.add(sym == z3.RealVal(str(m)))
    return s.model() if C.timed_check(s, 4) == z3.sat else None


class JobRunner:
    def __init__(self, module, func, cfg, budget=600, validate=12,
                 max_paths=20000, cross=False, query_timeout=25, known=()):
        self.module, self.func, self.cfg = module, func, cfg
        self.budget = budget
        self.validate = validate
        self.max_paths = max_paths
        self.cross = cross
        self.query_timeout = query_timeout
        self.known = list(known)
        self.violations = []
        self.known_hits = []
        self.inconclusive = []
        self.reduced = []
        self.labels = {}
        self.samples = []
        self.stats = C.Stats()
        self.stop_on_violation = True

    # ---- checks
    def do_check(self, env, label, t, margin):
        st = self.stats
        st.inc('checks')
        self.labels[label] = self.labels.get(label, 0) + 1
        if t is True:
            st.inc('checks_by_rewriting')
            return
        neg = C.tnot(t)
        if neg is not True:
            sneg = C.z3.simplify(neg)
            if C.z3.is_false(sneg):
                st.inc('checks_by_rewriting')
                env.raw.append((label, t))
                return
            cons = ENG.pc + [neg]
        else:
            cons = list(ENG.pc)
        r, m = C.solve(cons, self.query_timeout, stats=st, cross=self.cross)
        if r == 'unsat':
            st.inc('discharged')
            return
        if r == 'unknown':
            self.inconclusive.append('unknown: %s' % label)
            st.inc('unknown')
            return
        st.inc('sat')
        self.candidate(label, cons, m, margin)

    def confirm(self, env):
        """one query for all equalities of the path that were already decided
        by rewriting, on the terms as they were"""
        if not env.raw:
            return
        z3 = C.z3
        s = z3.Solver()
        s.set('timeout', 4000)
        s.add(*ENG.pc)
        s.add(z3.Not(z3.And(*[t for _, t in env.raw])))
        t0 = time.time()
        r = C.timed_check(s, 4)
        self.stats.inc('queries')
        self.stats['solver_s'] = self.stats.get(
            'solver_s', 0) + time.time() - t0
        if r == z3.unsat:
            self.stats.inc('confirmed', len(env.raw))
            self.stats.inc('confirming_queries')
        elif r == z3.sat:
            self.candidate('rewriting of: ' + ', '.join(sorted(set(
                l for l, _ in env.raw)))[:200], list(ENG.pc), s.model(), None)
        else:
            self.stats.inc('unconfirmed', len(env.raw))

    def candidate(self, label, cons, m, margin):
        """replay a counterexample on the real code"""
        tried = 0
        last = None

        def models():
            if margin is not None and margin is not False:
                for mm in nice_models(cons + ([margin] if margin is not True
                                              else [])):
                    yield mm
            for mm in nice_models(cons):
                yield mm
            if m is not None:
                yield m
        for mm in models():
            tried += 1
            inp = model_inputs(mm)
            rep = self.concrete(inp)
            last = rep
            if rep.get('fatal'):
                continue
            if rep.get('assume_failed'):
                continue
            bad = [l for l, ok in rep['results'] if not ok]
            if bad or rep['exc']:
                v = {'label': bad[0] if bad else 'exception: ' + rep['exc'],
                     'failed': bad, 'exc': rep['exc'], 'model': inp,
                     'module': self.module, 'func': self.func,
                     'cfg': self.cfg, 'sym_label': label, 'tb': rep['tb']}
                self.stats.inc('replays_reproduced')
                if self.is_known(v):
                    self.known_hits.append(v)
                    return
                self.violations.append(v)
                if self.stop_on_violation:
                    raise Stop()
                return
        self.stats.inc('replays_not_reproduced')
        self.inconclusive.append(
            'counterexample for %r did not reproduce (%d models): %s' % (
                label, tried, str(last)[:500]))

    def is_known(self, v):
        for k in self.known:
            if k.get('func') == self.func and (
                    k.get('match') in (v['sym_label'], v['label'])):
                return True
        return False

    def concrete(self, inp):
        return call_worker({'module': self.module, 'func': self.func,
                            'cfg': self.cfg, 'model': inp})

    # ---- path validation
    def validate_path(self, env, pc):
        """push a model of the path through the real code, compare"""
        mms = []
        for mm in nice_models(pc, budget=6.0):
            mms.append(mm)
            break
        for mm in mms:
            inp = model_inputs(mm)
            rep = self.concrete(inp)
            if rep.get('fatal'):
                self.inconclusive.append('replay worker: ' + str(rep)[:800])
                return
            if rep.get('assume_failed'):
                self.stats.inc('validation_skipped')
                return
            if rep['exc']:
                self.stats.inc('trace_mismatch')
                self.samples.append({'mismatch': rep['exc'], 'tb': rep['tb'],
                                     'inputs': inp, 'cfg': self.cfg})
                # the real code fails where the encoding does not
                self.violations.append({
                    'label': 'exception: ' + rep['exc'], 'failed': [],
                    'exc': rep['exc'], 'model': inp, 'module': self.module,
                    'func': self.func, 'cfg': self.cfg,
                    'sym_label': 'path model', 'tb': rep['tb']})
                raise Stop()
            bad = [l for l, ok in rep['results'] if not ok]
            if bad:
                self.stats.inc('trace_mismatch')
                v = {
                    'label': bad[0], 'failed': bad, 'exc': None, 'model': inp,
                    'module': self.module, 'func': self.func,
                    'cfg': self.cfg, 'sym_label': 'path model', 'tb': ''}
                if self.is_known(v):
                    self.known_hits.append(v)
                    return
                self.violations.append(v)
                raise Stop()
            if ENG.medians:
                mm = exact_medians(mm, pc)
                if mm is None:
                    self.stats.inc('validation_skipped')
                    return
            mism = self.compare(env, mm, rep)
            if mism:
                self.stats.inc('trace_mismatch')
                self.samples.append({'mismatch': mism, 'inputs': inp,
                                     'cfg': self.cfg})
            else:
                self.stats.inc('traces_validated')
            if len(self.samples) < 4:
                self.samples.append({
                    'cfg': self.cfg, 'inputs': inp,
                    'observed_real': dict(
                        (l, v[:6]) for l, v in rep['obs'][:3])})

    def compare(self, env, mm, rep):
        a, b = env.obs, rep['obs']
        if [l for l, _ in a] != [l for l, _ in b]:
            return 'labels differ: %s vs %s' % (
                [l for l, _ in a][:20], [l for l, _ in b][:20])
        for (l, sv), (_, cv) in zip(a, b):
            if len(sv) != len(cv):
                return '%s: lengths %d %d' % (l, len(sv), len(cv))
            for x, y in zip(sv, cv):
                if y is None or not C.is_num(x):
                    continue
                if 'uf_' in str(x) if isinstance(x, C.SReal) and False else False:
                    continue
                try:
                    x = float(C.meval(mm, x))
                except (ValueError, ZeroDivisionError, C.z3.Z3Exception):
                    continue
                y = float(y)
                if math.isnan(x) or math.isnan(y):
                    if math.isnan(x) != math.isnan(y):
                        return '%s: %s vs %s' % (l, x, y)
                    continue
                if x == y:
                    continue
                if abs(x - y) > 1e-4 * (1 + abs(x) + abs(y)):
                    return '%s: encoding %s real %s' % (l, x, y)
        return None

    # ---- main loop
    def run(self):
        t0 = time.time()
        ENG.stats = C.Stats()
        ENG.reset_all()
        try:
            sys.monitoring.restart_events()
        except Exception:
            pass
        ENG.deadline = t0 + self.budget
        hm = importlib.import_module('harness.' + self.module)
        fn = getattr(hm, self.func)
        npaths = 0
        opts = getattr(fn, 'opts', {})
        novalidate = opts.get('novalidate', False)
        try:
            while ENG.work:
                prefix = ENG.work.pop()
                ENG.start_path(prefix)
                npaths += 1
                if npaths > self.max_paths:
                    self.inconclusive.append('path bound %d' % self.max_paths)
                    break
                env = None
                try:
                    env = SymEnv(self, self.cfg)
                    fn(env, **self.cfg)
                except C.PathInfeasible:
                    self.stats.inc('infeasible')
                    continue
                except C.PathAbort as e:
                    self.inconclusive.append('path bound: %s' % e)
                    continue
                except C.EngineLimit as e:
                    self.reduce_path(str(e))
                    continue
                except C.Inconclusive as e:
                    self.inconclusive.append(str(e))
                    if time.time() > ENG.deadline:
                        break
                    continue
                except (Exception, RecursionError) as e:
                    self.stats.inc('exceptions')
                    tb = traceback.format_exc()[-1800:]
                    n0 = len(self.inconclusive)
                    self.candidate('exception %s: %s' % (
                        type(e).__name__, e), list(ENG.pc), None, None)
                    if len(self.inconclusive) > n0:
                        self.inconclusive[-1] += '\n' + tb
                        if len(self.inconclusive) > 3:
                            break
                    continue
                self.stats.inc('paths')
                self.confirm(env)
                if env.nchecks == 0:
                    self.stats.inc('paths_without_check')
                nv = self.stats.get('traces_validated', 0) + self.stats.get(
                    'trace_mismatch', 0)
                k = self.stats['paths']
                if not novalidate and nv < self.validate and (
                        k <= 4 or k % max(1, 2 ** (nv // 2)) == 0):
                    self.validate_path(env, list(ENG.pc))
                if len(self.inconclusive) > 5:
                    break
        except Stop:
            pass
        except C.Inconclusive as e:
            self.inconclusive.append(str(e))
        for k, v in ENG.stats.items():
            if k == 'solver_s':
                self.stats['solver_s'] = self.stats.get('solver_s', 0) + v
            else:
                self.stats[k] = self.stats.get(k, 0) + v
        if not self.violations and not self.inconclusive:
            if self.stats.get('checks', 0) == 0 and not self.known_hits \
                    and not self.reduced:
                self.inconclusive.append('vacuous: no check was reached')
            for l in opts.get('must', []):
                if not any(x.startswith(l) for x in self.labels) \
                        and not self.known_hits and not self.reduced:
                    self.inconclusive.append('vacuous: %r not reached' % l)
        return {
            'module': self.module, 'func': self.func, 'cfg': self.cfg,
            'violations': self.violations, 'known': self.known_hits,
            'inconclusive': self.inconclusive, 'reduced': self.reduced,
            'stats': dict(self.stats), 'labels': self.labels,
            'samples': self.samples[:4],
            'touched': sorted(ENG.touched), 'wall': time.time() - t0,
        }

    def reduce_path(self, why):
        """the engine cannot encode the rest of the path: fall back to models
        of the path on the real code, reported as reduced coverage"""
        self.stats.inc('reduced_paths')
        if len(self.reduced) < 20:
            self.reduced.append(why)
        if self.stats['reduced_paths'] > 40:
            return
        for mm in nice_models(list(ENG.pc), budget=5.0):
            inp = model_inputs(mm)
            rep = self.concrete(inp)
            if rep.get('fatal') or rep.get('assume_failed'):
                continue
            bad = [l for l, ok in rep['results'] if not ok]
            self.stats.inc('reduced_runs')
            if bad or rep['exc']:
                v = {'label': bad[0] if bad else 'exception: ' + rep['exc'],
                     'failed': bad, 'exc': rep['exc'], 'model': inp,
                     'module': self.module, 'func': self.func,
                     'cfg': self.cfg, 'sym_label': 'reduced path',
                     'tb': rep['tb']}
                if self.is_known(v):
                    self.known_hits.append(v)
                    return
                self.violations.append(v)
                raise Stop()
