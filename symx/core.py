"""
Symbolic values and the path-exploration engine.

The real Python source of metadetect is executed under CPython with the proxy
values defined here in place of numbers.  A branch on a symbolic condition
(``SBool.__bool__``) is decided by z3: if both sides are feasible under the
path condition the exploration forks (by re-execution with a decision prefix).

Floating point values are modelled as extended reals: an exact real number or
one of nan/+inf/-inf.  Rounding is outside of the model.
"""
import itertools
import math
import os
import subprocess
import tempfile
import threading
import time
from fractions import Fraction

import z3


class ControlExc(BaseException):
    """base for exceptions that steer the exploration; never an Exception"""


class PathInfeasible(ControlExc):
    pass


class PathAbort(ControlExc):
    """path hits a bound of the harness, reported as inconclusive"""


class Inconclusive(ControlExc):
    pass


class EngineLimit(ControlExc):
    """the code did something the engine cannot encode"""


# --------------------------------------------------------------------------
# engine
# --------------------------------------------------------------------------

class Stats(dict):
    def inc(self, k, n=1):
        self[k] = self.get(k, 0) + n


class Engine:
    def __init__(self):
        self.stats = Stats()
        self.reset_all()

    def reset_all(self):
        self.work = [[]]
        self.axioms = []
        self.deadline = None
        self.branch_timeout = 3000
        self.implied_timeout = 1500
        self.touched = set()
        self.concretised = {}
        self.start_path([])

    # ---- path state
    def start_path(self, prefix):
        self.prefix = list(prefix)
        self.taken = []
        self.pc = []
        self.decided = {}
        self.implied_cache = {}
        self.guards = []
        self.solver = z3.Solver()
        self.solver.set('timeout', self.branch_timeout)
        self.model = None
        self.model_valid = False
        self.fresh_n = {}
        self.inputs = {}
        self.sqrt_cache = {}
        self.sqrt_of = {}
        self.uf_apps = {}
        self.pos = {}
        self.notes = []
        self.memo = {}
        self.median_exact = 9
        self.medians = []

    def fresh_name(self, base):
        n = self.fresh_n.get(base, 0)
        self.fresh_n[base] = n + 1
        return '%s!%d' % (base, n)

    def add(self, t):
        """add a constraint known to keep the path feasible"""
        if t is True:
            return
        if t is False:
            raise PathInfeasible()
        self.pc.append(t)
        self.solver.add(t)
        if self.model is not None:
            v = self.model.eval(t, model_completion=True)
            if not z3.is_true(v):
                self.model = None

    def _check(self, *extra):
        self.stats.inc('branch_queries')
        t0 = time.time()
        r = timed_check(self.solver, 15, *extra)
        self.stats['solver_s'] = self.stats.get('solver_s', 0.) + time.time() - t0
        return r

    def tick(self):
        if self.deadline is not None and time.time() > self.deadline:
            raise Inconclusive('time budget exhausted')

    def assume(self, c):
        t = bterm(c)
        if t is True:
            return
        if t is False:
            raise PathInfeasible()
        self.pc.append(t)
        self.solver.add(t)
        if self.model is not None and z3.is_true(
                self.model.eval(t, model_completion=True)):
            return
        self.model = None
        r = self._check()
        if r == z3.unsat:
            raise PathInfeasible()
        if r == z3.sat:
            self.model = self.solver.model()

    def assume_fresh(self, var, cs, value):
        """constraints on an input that nothing else depends on yet, that
        the value satisfies: the path stays feasible"""
        for c in cs:
            t = bterm(c)
            if t is True:
                continue
            self.pc.append(t)
            self.solver.add(t)
            if self.model is not None and not z3.is_true(
                    self.model.eval(t, model_completion=True)):
                try:
                    self.model.update_value(var, value)
                except (z3.Z3Exception, AttributeError):
                    self.model = None
        if self.model is not None:
            for c in cs:
                t = bterm(c)
                if t is not True and not z3.is_true(
                        self.model.eval(t, model_completion=True)):
                    self.model = None
                    break

    def get_model(self):
        if self.model is None:
            r = self._check()
            if r == z3.sat:
                self.model = self.solver.model()
            elif r == z3.unsat:
                raise PathInfeasible()
        return self.model

    def decide(self, t):
        """t: z3 Bool term, not constant. returns python bool"""
        key = t.get_id()
        if key in self.decided:
            return self.decided[key][0]
        nk = z3.Not(t)
        if z3.is_not(t):
            inner = t.arg(0).get_id()
            if inner in self.decided:
                return not self.decided[inner][0]
        self.tick()
        i = len(self.taken)
        if i < len(self.prefix):
            val = self.prefix[i]
            self.taken.append(val)
            self._record(t, nk, val)
            return val

        # which sides are feasible
        m = self.get_model()
        can = {}
        if m is not None:
            v = m.eval(t, model_completion=True)
            if z3.is_true(v):
                can[True] = m
            elif z3.is_false(v):
                can[False] = m
        for side in (True, False):
            if side in can:
                continue
            r = self._check(t if side else nk)
            if r == z3.sat:
                can[side] = self.solver.model()
            elif r == z3.unknown:
                self.stats.inc('branch_unknown')
                can[side] = None
        if not can:
            raise PathInfeasible()
        self.stats.inc('branches')
        if len(can) == 2:
            self.stats.inc('forks')
            val = True
            self.work.append(self.taken + [False])
        else:
            val = next(iter(can))
            # forced decisions are recorded also so the re-execution
            # needs no queries
        self.model = can[val]
        self.taken.append(val)
        self._record(t, nk, val)
        return val

    def _record(self, t, nk, val):
        self.decided[t.get_id()] = (val, t)
        tt = t if val else nk
        self.pc.append(tt)
        self.solver.add(tt)
        if self.model is not None:
            if not z3.is_true(self.model.eval(tt, model_completion=True)):
                self.model = None

    def implied(self, c):
        """True if c is implied by the path condition and the guards (sound,
        may return False when unknown)"""
        t = bterm(c)
        if t is True or t is False:
            return t
        gk = tuple(g.get_id() for g in self.guards)
        key = (t.get_id(), gk)
        if key in self.implied_cache:
            r = self.implied_cache[key][0]
            if r or self.implied_cache[key][2] == len(self.pc):
                return r
        d = self.decided.get(t.get_id())
        if d is not None:
            return d[0]
        res = None
        if self.model is not None:
            allg = all(z3.is_true(self.model.eval(g, model_completion=True))
                       for g in self.guards)
            if allg and z3.is_false(
                    self.model.eval(t, model_completion=True)):
                res = False
        if res is None:
            self.solver.set('timeout', self.implied_timeout)
            r = self._check(z3.Not(t), *self.guards)
            self.solver.set('timeout', self.branch_timeout)
            res = (r == z3.unsat)
        self.implied_cache[key] = (res, t, len(self.pc))
        return res

    def note_concretise(self, what):
        self.concretised[what] = self.concretised.get(what, 0) + 1


ENG = Engine()


# --------------------------------------------------------------------------
# portfolio
# --------------------------------------------------------------------------

def solve(constraints, timeout_s=20, want_model=True, stats=None, cross=False):
    """returns ('sat', model|None) / ('unsat', None) / ('unknown', None)"""
    stats = stats if stats is not None else ENG.stats
    stats.inc('queries')
    t0 = time.time()
    out = 'unknown', None
    try:
        stages = [('default', min(timeout_s, 1.5)),
                  ('split', min(timeout_s, 4)),
                  ('lemmas', min(timeout_s, 6)),
                  ('split', timeout_s), ('nlsat', min(timeout_s, 10)),
                  ('default', timeout_s), ('cvc5', timeout_s)]
        lem = []
        for kind, to in stages:
            if kind == 'default':
                s = z3.Solver()
                s.add(*lem)
            elif kind == 'split':
                r, m = split_unsat(constraints, to, stats)
                if r == 'unknown':
                    continue
                stats.inc('by_splitting')
                out = r, m
                break
            elif kind == 'lemmas':
                if abstract_unsat(constraints, 1.5):
                    stats.inc('by_abstraction')
                    out = 'unsat', None
                    break
                lem = pair_lemmas(constraints, stats)
                if not lem:
                    continue
                if abstract_unsat(constraints + lem, 4):
                    stats.inc('by_abstraction')
                    out = 'unsat', None
                    break
                s = z3.Solver()
                s.add(*lem)
            elif kind == 'nlsat':
                try:
                    s = z3.Then('simplify', 'solve-eqs', 'purify-arith',
                                'qfnra-nlsat').solver()
                except z3.Z3Exception:
                    continue
            else:
                r = cvc5_check(constraints, to)
                if r == 'unsat':
                    stats.inc('cvc5_unsat')
                    out = 'unsat', None
                    break
                continue
            s.set('timeout', int(to * 1000))
            s.add(*constraints)
            try:
                r = timed_check(s, to + 2)
            except z3.Z3Exception:
                continue
            if r == z3.unsat:
                out = 'unsat', None
                break
            if r == z3.sat:
                out = 'sat', s.model()
                break
    finally:
        dt = time.time() - t0
        stats['solver_s'] = stats.get('solver_s', 0.) + dt
        stats['max_query_s'] = max(stats.get('max_query_s', 0.), dt)
    if cross and out[0] == 'unsat' and stats.get('cross_s', 0.) < 40:
        t0 = time.time()
        r = cvc5_check(constraints, min(timeout_s, 5))
        stats['cross_s'] = stats.get('cross_s', 0.) + time.time() - t0
        stats.inc('cvc5_cross_%s' % r)
        if r == 'sat':
            return 'unknown', None
    return out


_lemma_cache = {}
_pure_cache = {}


def _atoms(constraints):
    """arithmetic comparisons without if-then-else inside"""
    seen, out = set(), []
    todo = list(constraints)
    while todo:
        t = todo.pop()
        i = t.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_bool(t) and t.decl().kind() in _CMP and t.num_args() == 2 \
                and t.arg(0).sort_kind() in (z3.Z3_REAL_SORT, z3.Z3_INT_SORT):
            p = _pure(t)
            if p is not None:
                out.append((t,) + p)
                continue
        todo.extend(t.children())
    return out


_CMP = (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_EQ)
_ARITH = (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS,
          z3.Z3_OP_POWER, z3.Z3_OP_TO_REAL, z3.Z3_OP_ANUM, z3.Z3_OP_DIV)


def _pure(t):
    """(variables, nonlinear?) of an atom, None if not pure arithmetic"""
    i = t.get_id()
    if i in _pure_cache:
        return _pure_cache[i][0]
    vs, nl, seen = set(), False, set()
    todo = list(t.children())
    res = ()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        k = x.decl().kind()
        if z3.is_const(x):
            if k == z3.Z3_OP_UNINTERPRETED:
                if x.sort_kind() != z3.Z3_REAL_SORT:
                    res = None
                    break
                vs.add(x.decl().name())
            continue
        if k not in _ARITH:
            res = None
            break
        if k in (z3.Z3_OP_MUL, z3.Z3_OP_POWER):
            n = 0
            for c in x.children():
                if not z3.is_rational_value(c):
                    n += 1
            if n > 1 or k == z3.Z3_OP_POWER:
                nl = True
        todo.extend(x.children())
    if res is not None:
        res = (frozenset(vs), nl)
    _pure_cache[i] = (res, t)
    return res


def pair_lemmas(constraints, stats, limit=1500, seconds=15):
    """theory lemmas: pairs of literals that contradict each other (given the
    unit constraints over the same variables), found with nlsat"""
    atoms = _atoms(constraints)
    if not any(nl for _, _, nl in atoms):
        return []
    units = []
    uid = set()
    for c in constraints:
        n = c.arg(0) if z3.is_not(c) else c
        p = _pure(n) if (n.num_args() == 2 and n.decl().kind() in _CMP
                         and n.arg(0).sort_kind() == z3.Z3_REAL_SORT) else None
        if p is not None:
            units.append((c, p[0]))
            uid.add(n.get_id())
    atoms = [a for a in atoms if a[0].get_id() not in uid]
    out = []
    t_end = time.time() + seconds
    n = 0
    pairs = []
    for i, (a, va, na) in enumerate(atoms):
        for (b, vb, nb) in atoms[:i]:
            if not va & vb or len(va | vb) > 7:
                continue
            pairs.append((len(va | vb), i, a, b, va | vb, na or nb))
    pairs.sort(key=lambda p: p[:2])
    for _, _, a, b, vs, nl in pairs:
        us = [c for c, v in units if v <= vs]
        if not nl and not us:
            continue
        for sa in (True, False):
            for sb in (True, False):
                key = (a.get_id(), b.get_id(), sa, sb,
                       tuple(c.get_id() for c in us))
                r = _lemma_cache.get(key)
                if r is None:
                    n += 1
                    if n > limit or time.time() > t_end:
                        return out
                    s = z3.Then('simplify', 'solve-eqs', 'purify-arith',
                                'qfnra-nlsat').solver()
                    s.set('timeout', 250)
                    la = a if sa else z3.Not(a)
                    lb = b if sb else z3.Not(b)
                    s.add(la, lb, *us)
                    r = timed_check(s, 1) == z3.unsat
                    stats.inc('lemma_queries')
                    _lemma_cache[key] = (r, a, b, us)
                else:
                    r = r[0]
                if r:
                    stats.inc('lemmas')
                    out.append(z3.Or(z3.Not(a) if sa else a,
                                     z3.Not(b) if sb else b))
    return out


def _first_cond(t):
    """a pure atom below an if-then-else condition (or a connective) of t"""
    todo = [t]
    seen = set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app_of(x, z3.Z3_OP_ITE):
            ats = _atoms([x.arg(0)])
            if ats:
                return min(ats, key=lambda a: (len(a[1]), a[2]))[0]
        todo.extend(reversed(x.children()))
    return None


def split_unsat(constraints, to, stats, max_leaves=1500):
    """case analysis on the conditions inside the last constraint (the negated
    goal); each leaf is refuted by polynomial normalisation or nlsat"""
    goal = constraints[-1]
    if _first_cond(goal) is None:
        return 'unknown', None
    t_end = time.time() + to
    units = []
    for c in constraints[:-1]:
        ok = True
        vs = set()
        cs = [c]
        for x in list(c.children()) + [c]:
            cs.append(x)
        ats = _atoms([c])
        for a, v, _ in ats:
            vs |= v
        # only constraints built from pure real atoms
        todo = [c]
        ids = set(a.get_id() for a, _, _ in ats)
        while todo and ok:
            x = todo.pop()
            if x.get_id() in ids:
                continue
            if x.decl().kind() in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT,
                                   z3.Z3_OP_IMPLIES):
                todo.extend(x.children())
            else:
                ok = False
        if ok and vs:
            units.append((c, frozenset(vs)))
    leaves = [0]

    found = []

    def nl(cons, ms, leaf=False):
        s = z3.Then('simplify', 'solve-eqs', 'purify-arith',
                    'qfnra-nlsat').solver()
        s.set('timeout', ms)
        s.add(*cons)
        stats.inc('split_queries')
        try:
            r = timed_check(s, ms / 1000 + 1)
            if leaf and r == z3.sat:
                m = s.model()
                if all(z3.is_true(m.eval(c, model_completion=True))
                       for c in constraints):
                    found.append(m)
            return r == z3.unsat
        except z3.Z3Exception:
            return False

    def relevant(facts, vs):
        out = [f for f, v in facts if v <= vs]
        extra = [c for c, v in units if v <= vs]
        if not extra:
            extra = [c for c, v in units if v & vs]
        return out + extra

    def rec(g, facts):
        leaves[0] += 1
        if leaves[0] > max_leaves or time.time() > t_end:
            return False
        g = z3.simplify(g)
        if z3.is_false(g):
            return True
        a = _first_cond(g)
        if a is None:
            g2 = z3.simplify(g, som=True)
            if z3.is_false(g2):
                return True
            ats = _atoms([g])
            vs = set()
            for _, v, _ in ats:
                vs |= v
            if nl(relevant(facts, vs) + [g], 500):
                return True
            return nl([f for f, _ in facts] + [c for c, _ in units] + [g],
                      3000, True)
        vs = _pure(a)[0]
        for val in (True, False):
            f = a if val else z3.Not(a)
            big = set(vs)
            for _, v in facts:
                if v & vs:
                    big |= v
            for _, v in units:
                if v & vs and len(v) <= 4:
                    big |= v
            if nl(relevant(facts, big) + [f], 100):
                continue
            h = z3.substitute(g, (a, z3.BoolVal(val)))
            if not rec(h, facts + [(f, vs)]):
                return False
        return True
    try:
        r = rec(goal, [])
    except (z3.Z3Exception, RecursionError):
        return 'unknown', None
    if found:
        return 'sat', found[0]
    return ('unsat', None) if r else ('unknown', None)


def abstract_unsat(constraints, to):
    """nonlinear terms as uninterpreted, nonlinear atoms as booleans: unsat of
    the abstraction implies unsat"""
    memo = {}
    keep = []
    ax = []
    R = z3.RealSort()

    def rw(t):
        i = t.get_id()
        if i in memo:
            return memo[i]
        r = _rw(t)
        memo[i] = r
        keep.append(t)
        return r

    def _rw(t):
        if z3.is_const(t) or z3.is_quantifier(t):
            return t
        k = t.decl().kind()
        if z3.is_bool(t) and k in _CMP and t.num_args() == 2 and \
                t.arg(0).sort_kind() == z3.Z3_REAL_SORT:
            p = _pure(t)
            if p is not None and p[1]:
                return z3.Bool('abs!%d' % t.get_id())
        ch = t.children()
        if t.sort_kind() == z3.Z3_REAL_SORT and k in (
                z3.Z3_OP_MUL, z3.Z3_OP_POWER, z3.Z3_OP_DIV):
            if k == z3.Z3_OP_MUL:
                cs = [c for c in ch if z3.is_rational_value(c)]
                ns = [c for c in ch if not z3.is_rational_value(c)]
                if len(ns) > 1:
                    a = sorted((rw(c) for c in ns), key=lambda x: x.get_id())
                    f = z3.Function('abs!mul%d' % len(a),
                                    *([R] * (len(a) + 1)))
                    out = f(*a)
                    ax.extend(z3.Implies(x == 0, out == 0) for x in a)
                    if len(a) == 2:
                        ax.append(z3.Implies(a[0] == 1, out == a[1]))
                        ax.append(z3.Implies(a[1] == 1, out == a[0]))
                    for c in cs:
                        out = c * out
                    return out
            elif not (k == z3.Z3_OP_DIV and z3.is_rational_value(ch[1])):
                f = z3.Function('abs!%d' % k, R, R, R)
                return f(*[rw(c) if c.sort_kind() == z3.Z3_REAL_SORT
                           else z3.ToReal(rw(c)) for c in ch])
        new = [rw(c) for c in ch]
        if all(a.get_id() == b.get_id() for a, b in zip(new, ch)):
            return t
        if k == z3.Z3_OP_AND:
            return z3.And(*new)
        if k == z3.Z3_OP_OR:
            return z3.Or(*new)
        if k == z3.Z3_OP_ADD:
            return z3.Sum(*new)
        if k == z3.Z3_OP_MUL:
            return z3.Product(*new)
        return t.decl()(*new)
    try:
        cons = [rw(c) for c in constraints]
    except (z3.Z3Exception, RecursionError):
        return False
    s = z3.Solver()
    s.set('timeout', int(to * 1000))
    s.add(*cons)
    s.add(*ax)
    return timed_check(s, to + 1) == z3.unsat


def set_seed(n):
    z3.set_param('smt.random_seed', n)
    z3.set_param('sat.random_seed', n)
    z3.set_param('nlsat.seed', n)


_dog = {'pid': None, 'deadline': None}


def _watch():
    # never touches a z3 object other than the context: reference counts are
    # not thread safe
    ctx = z3.main_ctx().ref()
    while True:
        time.sleep(0.25)
        d = _dog['deadline']
        if d is not None and time.time() > d:
            z3.Z3_interrupt(ctx)
            if time.time() > d + 20 and os.environ.get('SYMX_WORKER'):
                # it does not return: another attempt is made elsewhere
                sys.stderr.write('a solver call did not return\n')
                os._exit(77)


def timed_check(s, to, *extra):
    """check with a watchdog: some z3 phases ignore the timeout"""
    if to <= 0:
        return z3.unknown
    if _dog['pid'] != os.getpid():
        _dog['pid'] = os.getpid()
        threading.Thread(target=_watch, daemon=True).start()
    _dog['deadline'] = time.time() + to
    try:
        return s.check(*extra)
    except z3.Z3Exception:
        return z3.unknown
    finally:
        _dog['deadline'] = None


def cvc5_check(constraints, timeout_s):
    s = z3.Solver()
    s.add(*constraints)
    txt = '(set-logic ALL)\n' + s.to_smt2().replace('(set-info', '; (set-info')
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write(txt)
    try:
        p = subprocess.run(
            ['cvc5', '--tlimit=%d' % int(timeout_s * 1000), f.name],
            capture_output=True, text=True, timeout=timeout_s + 10)
        o = p.stdout.strip().split('\n')
        if '(error' in p.stdout:
            return 'error'
        return o[0] if o and o[0] in ('sat', 'unsat') else 'unknown'
    except (subprocess.TimeoutExpired, OSError):
        return 'unknown'
    finally:
        os.unlink(f.name)


# --------------------------------------------------------------------------
# booleans
# --------------------------------------------------------------------------

def bterm(c):
    """python bool or z3 term"""
    if isinstance(c, SBool):
        return c.t
    if c is True or c is False:
        return c
    if isinstance(c, z3.BoolRef):
        return c
    if isinstance(c, (SInt, SBV, SReal)):
        return bterm(c.nonzero())
    return bool(c)


def mkbool(t):
    if t is True or t is False:
        return t
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SBool(t)


def tnot(a):
    if a is True or a is False:
        return not a
    if z3.is_not(a):
        return a.arg(0)
    if z3.is_true(a):
        return False
    if z3.is_false(a):
        return True
    return z3.Not(a)


def tand(*xs):
    out = []
    seen = set()
    for x in xs:
        if x is False or (x is not True and z3.is_false(x)):
            return False
        if x is True or z3.is_true(x):
            continue
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        out.append(x)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return z3.And(*out)


def tor(*xs):
    out = []
    seen = set()
    for x in xs:
        if x is True or (x is not False and z3.is_true(x)):
            return True
        if x is False or z3.is_false(x):
            continue
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        out.append(x)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return z3.Or(*out)


def And(*xs):
    return mkbool(tand(*[bterm(x) for x in xs]))


def Or(*xs):
    return mkbool(tor(*[bterm(x) for x in xs]))


def Not(x):
    return mkbool(tnot(bterm(x)))


def Implies(a, b):
    return Or(Not(a), b)


class Sym:
    __array_ufunc__ = None
    __array_priority__ = 1000

    def __format__(self, spec):
        return repr(self)

    def __str__(self):
        return repr(self)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def item(self):
        return self

    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    @property
    def size(self):
        return 1

    def copy(self):
        return self


def _dt(name):
    import numpy
    return numpy.dtype(name)


def _other_is_array(o):
    return hasattr(o, '_is_symarray')


class SBool(Sym):
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    @property
    def dtype(self):
        return _dt('bool')

    def __bool__(self):
        return ENG.decide(self.t)

    def __invert__(self):
        return Not(self)

    def _bo(self, o, f):
        if _other_is_array(o):
            return NotImplemented
        if isinstance(o, (SBool, bool)):
            return f(self, o)
        if hasattr(o, 'dtype') and getattr(o, 'dtype') == bool:
            return f(self, bool(o))
        if isinstance(o, (int, SInt, SBV)):
            return NotImplemented
        return NotImplemented

    def __and__(self, o):
        return self._bo(o, And)
    __rand__ = __and__

    def __or__(self, o):
        return self._bo(o, Or)
    __ror__ = __or__

    def __xor__(self, o):
        return self._bo(o, lambda a, b: mkbool(
            z3.Xor(zb(bterm(a)), zb(bterm(b)))))
    __rxor__ = __xor__

    def __eq__(self, o):
        if _other_is_array(o):
            return NotImplemented
        if o is True or o is False:
            return self if o else Not(self)
        if isinstance(o, SBool):
            return mkbool(z3.simplify(self.t == o.t))
        return num(self) == o

    def __ne__(self, o):
        if _other_is_array(o):
            return NotImplemented
        return Not(self == o)

    def __hash__(self):
        return hash(bool(self))

    def __repr__(self):
        return '<sym bool>'

    def as_int(self):
        return SInt(z3.If(self.t, z3.IntVal(1), z3.IntVal(0)))

    def any(self):
        return self

    all = any

    def __index__(self):
        return int(bool(self))

    __int__ = __index__

    def _arith(name):
        def f(self, o):
            if _other_is_array(o):
                return NotImplemented
            return getattr(self.as_int(), name)(o)
        return f
    for _n in ('add', 'radd', 'sub', 'rsub', 'mul', 'rmul', 'truediv',
               'rtruediv', 'lt', 'le', 'gt', 'ge', 'neg', 'pow'):
        if _n != 'neg':
            locals()['__%s__' % _n] = _arith('__%s__' % _n)
    del _n, _arith

    def __neg__(self):
        return -self.as_int()

    def astype(self, dt):
        import symx.nps as nps
        return nps.coerce(self, nps.to_dtype(dt))

    def sum(self):
        return self.as_int()


def zb(t):
    return z3.BoolVal(t) if t is True or t is False else t


def num(x):
    """bools to ints"""
    if isinstance(x, SBool):
        return x.as_int()
    if x is True or x is False:
        return int(x)
    return x


# --------------------------------------------------------------------------
# ints
# --------------------------------------------------------------------------

def is_pyint(x):
    if isinstance(x, bool):
        return False
    if isinstance(x, int):
        return True
    import numpy
    return isinstance(x, numpy.integer)


def is_pyfloat(x):
    import numpy
    return isinstance(x, (float, Fraction, numpy.floating))


def mkint(t):
    if isinstance(t, int):
        return t
    if z3.is_int_value(t):
        return t.as_long()
    return SInt(t)


def iterm(x):
    """z3 Int term or python int"""
    if isinstance(x, SInt):
        return x.t
    if isinstance(x, SBV):
        return _bv_to_int(x.t)
    if isinstance(x, SBool):
        return x.as_int().t
    if isinstance(x, bool):
        return int(x)
    if is_pyint(x):
        return int(x)
    raise TypeError('not int %r' % (x,))


def _fork_value(term, lo=None, hi=None):
    """concretise an int/bv term by forking on its feasible values"""
    ENG.tick()
    key = ('val', term.get_id())
    if key in ENG.memo:
        return ENG.memo[key][0]
    n = 0
    while True:
        # a candidate value, deterministic given the decisions so far: stored
        # as a decision so that re-execution makes the same choices
        i = len(ENG.taken)
        if i < len(ENG.prefix):
            v, eq = ENG.prefix[i]
        else:
            if n > 400:
                raise PathAbort('too many values for a symbolic index')
            m = None
            m = ENG.get_model()
            if m is None:
                # try again with a larger timeout
                r, m = solve(ENG.pc, 20)
                if r == 'unsat':
                    raise PathInfeasible()
                if m is None:
                    raise Inconclusive('no model for symbolic index')
            v = m.eval(term, model_completion=True)
            v = v.as_signed_long() if z3.is_bv_value(v) else v.as_long()
            eqt = (term == v)
            r = ENG._check(z3.Not(eqt))
            if r == z3.unsat:
                eq = True
            else:
                eq = True
                ENG.stats.inc('forks')
                ENG.work.append(ENG.taken + [(v, False)])
            ENG.stats.inc('branches')
        ENG.taken.append((v, eq))
        t = (term == v)
        t = t if eq else z3.Not(t)
        ENG.pc.append(t)
        ENG.solver.add(t)
        if ENG.model is not None and not z3.is_true(
                ENG.model.eval(t, model_completion=True)):
            ENG.model = None
        if eq:
            ENG.memo[key] = (v, term)
            return v
        n += 1
        if len(ENG.taken) >= len(ENG.prefix):
            r = ENG._check()
            if r == z3.unsat:
                raise PathInfeasible()
            if r == z3.sat:
                ENG.model = ENG.solver.model()


class SNum(Sym):
    __slots__ = ()

    def _bin(name):
        def f(self, o):
            if _other_is_array(o):
                return NotImplemented
            if not is_num(o):
                return NotImplemented
            return globals()['op_' + name](self, o)

        def r(self, o):
            if _other_is_array(o):
                return NotImplemented
            if not is_num(o):
                return NotImplemented
            return globals()['op_' + name](o, self)
        return f, r

    for _n in ('add', 'sub', 'mul', 'truediv', 'floordiv', 'mod', 'pow',
               'and', 'or', 'xor', 'lshift', 'rshift'):
        locals()['__%s__' % _n], locals()['__r%s__' % _n] = _bin(_n)
    for _n in ('lt', 'le', 'gt', 'ge', 'eq', 'ne'):
        locals()['__%s__' % _n] = _bin(_n)[0]
    del _bin, _n

    def __divmod__(self, o):
        return self // o, self % o

    def __rdivmod__(self, o):
        return o // self, o % self

    def __neg__(self):
        return op_sub(0, self)

    def __pos__(self):
        return self

    def __abs__(self):
        return op_abs(self)

    def __bool__(self):
        c = self.nonzero()
        return bool(c)

    def nonzero(self):
        return op_ne(self, 0)

    def __round__(self, nd=None):
        if nd is not None:
            raise EngineLimit('round with digits')
        return op_rint_int(self)

    def __floor__(self):
        return op_floor_int(self)

    def __ceil__(self):
        return op_ceil_int(self)

    def __trunc__(self):
        return op_trunc_int(self)

    def astype(self, dt):
        import symx.nps as nps
        return nps.coerce(self, nps.to_dtype(dt))

    def sum(self):
        return self

    def any(self):
        return self.nonzero()

    all = any

    def clip(self, lo=None, hi=None):
        import symx.nps as nps
        return nps.clip(self, lo, hi)

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    def ravel(self):
        import symx.nps as nps
        return nps.array([self])


class SInt(SNum):
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    @property
    def dtype(self):
        return _dt('i8')

    def __index__(self):
        return _fork_value(self.t)

    __int__ = __index__

    def __float__(self):
        raise EngineLimit('float() of a symbolic int')

    def __hash__(self):
        return hash(_fork_value(self.t))

    def __repr__(self):
        return '<sym int %s>' % str(self.t)[:40]

    def __invert__(self):
        return op_sub(-1, self)

    def bit_length(self):
        raise EngineLimit('bit_length')


BVW = 64


class SBV(SNum):
    """a mask / flag word: 64 bit two's complement"""
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    @property
    def dtype(self):
        return _dt('i8')

    def __index__(self):
        return _fork_value(self.t)

    __int__ = __index__

    def __hash__(self):
        return hash(_fork_value(self.t))

    def __invert__(self):
        return SBV(~self.t)

    def __repr__(self):
        return '<sym bits>'


def mkbv(t):
    if z3.is_bv_value(t):
        return t.as_signed_long()
    return SBV(t)


_bvtree = {}


def _tree_to_bv(t, depth=0):
    """an if-then-else tree of integer constants (or of converted bit
    vectors) as a bit vector, else None"""
    i = t.get_id()
    if i in _bvtree:
        return _bvtree[i][1]
    r = None
    if z3.is_int_value(t):
        v = t.as_long()
        if -2**63 <= v < 2**63:
            r = z3.BitVecVal(v, BVW)
    elif depth < 60 and z3.is_app_of(t, z3.Z3_OP_ITE):
        a = _tree_to_bv(t.arg(1), depth + 1)
        b = _tree_to_bv(t.arg(2), depth + 1) if a is not None else None
        if b is not None:
            r = z3.If(t.arg(0), a, b)
    _bvtree[i] = (t, r)
    return r


def bvish(x):
    if isinstance(x, SInt):
        r = _tree_to_bv(x.t)
        if r is not None:
            return SBV(r)
    return x


def _bv_to_int(x):
    t = z3.BV2Int(x, True)
    _bvtree[t.get_id()] = (t, x)
    return t


def bvterm(x):
    if isinstance(x, SBV):
        return x.t
    if isinstance(x, SInt):
        r = _tree_to_bv(x.t)
        return r if r is not None else z3.Int2BV(x.t, BVW)
    if isinstance(x, SBool):
        return z3.If(x.t, z3.BitVecVal(1, BVW), z3.BitVecVal(0, BVW))
    return z3.BitVecVal(int(x), BVW)


# --------------------------------------------------------------------------
# extended reals
# --------------------------------------------------------------------------

F0 = Fraction(0)
F1 = Fraction(1)


def zr(x):
    """Fraction|z3 -> z3 term"""
    if isinstance(x, Fraction):
        return z3.RealVal(x) if x.denominator != 1 else z3.RealVal(x.numerator)
    return x


def tfrac(t):
    """fold z3 rational values"""
    if isinstance(t, Fraction):
        return t
    if z3.is_rational_value(t):
        return Fraction(t.numerator_as_long(), t.denominator_as_long())
    return t


def radd(a, b):
    fa, fb = isinstance(a, Fraction), isinstance(b, Fraction)
    if fa and fb:
        return a + b
    if fa and a == 0:
        return b
    if fb and b == 0:
        return a
    return zr(a) + zr(b)


def rneg(a):
    if isinstance(a, Fraction):
        return -a
    return -a


def rsub(a, b):
    fa, fb = isinstance(a, Fraction), isinstance(b, Fraction)
    if fa and fb:
        return a - b
    if fb and b == 0:
        return a
    if not fa and not fb and a.get_id() == b.get_id():
        return F0
    return zr(a) - zr(b)


def rmul(a, b):
    fa, fb = isinstance(a, Fraction), isinstance(b, Fraction)
    if fa and fb:
        return a * b
    if fa:
        if a == 0:
            return F0
        if a == 1:
            return b
    if fb:
        if b == 0:
            return F0
        if b == 1:
            return a
    return zr(a) * zr(b)


def rprod(ts):
    out = F1
    for t in ts:
        out = rmul(out, t)
    return out


def rcmp(op, a, b):
    fa, fb = isinstance(a, Fraction), isinstance(b, Fraction)
    if fa and fb:
        return {'lt': a < b, 'le': a <= b, 'eq': a == b}[op]
    if not fa and not fb and a.get_id() == b.get_id():
        return op != 'lt'
    a, b = zr(a), zr(b)
    return {'lt': lambda: a < b, 'le': lambda: a <= b,
            'eq': lambda: a == b}[op]()


def rite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    fa, fb = isinstance(a, Fraction), isinstance(b, Fraction)
    if fa and fb and a == b:
        return a
    if not fa and not fb and a.get_id() == b.get_id():
        return a
    return z3.If(c, zr(a), zr(b))


def bite(c, a, b):
    """ite over bool terms"""
    if c is True:
        return a
    if c is False:
        return b
    return tor(tand(c, a), tand(tnot(c), b))


class SReal(SNum):
    """
    num / prod(den), or nan/+inf/-inf under the flag terms.  The dens are
    non-zero on the path.
    """
    __slots__ = ('n', 'd', 'nan', 'pinf', 'ninf')

    def __init__(self, n, d=(), nan=False, pinf=False, ninf=False):
        self.n = n
        self.d = d
        self.nan = nan
        self.pinf = pinf
        self.ninf = ninf

    @property
    def dtype(self):
        return _dt('f8')

    @property
    def plain(self):
        return self.nan is False and self.pinf is False and self.ninf is False

    @property
    def isconst(self):
        return (isinstance(self.n, Fraction) and not self.d
                and all(f is False or f is True
                        for f in (self.nan, self.pinf, self.ninf)))

    def const(self):
        """python float"""
        if self.nan:
            return math.nan
        if self.pinf:
            return math.inf
        if self.ninf:
            return -math.inf
        return float(self.n)

    def fin(self):
        return tnot(tor(self.nan, self.pinf, self.ninf))

    def term(self):
        """a single z3 term (or Fraction) of the finite value"""
        if not self.d:
            return self.n
        return zr(self.n) / zr(rprod(self.d))

    def __float__(self):
        if self.isconst:
            return self.const()
        raise EngineLimit('float() of a symbolic real')

    def __int__(self):
        v = op_trunc_int(self)
        return v if isinstance(v, int) else v.__index__()

    def __hash__(self):
        if self.isconst:
            return hash(self.const())
        raise EngineLimit('hash of a symbolic real')

    def __repr__(self):
        if self.isconst:
            return repr(self.const())
        return '<sym real>'

    def __format__(self, spec):
        if self.isconst and spec:
            return format(self.const(), spec)
        return repr(self)

    def is_integer(self):
        return op_eq(self, op_floor(self))


NAN = SReal(F0, nan=True)
PINF = SReal(F0, pinf=True)
NINF = SReal(F0, ninf=True)

_rc = {}


def rconst(x):
    """python number -> SReal"""
    if isinstance(x, Fraction):
        return SReal(x)
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, float) or not isinstance(x, int):
        x = float(x)
        if math.isnan(x):
            return NAN
        if math.isinf(x):
            return PINF if x > 0 else NINF
        r = _rc.get(x)
        if r is None:
            r = _rc[x] = SReal(Fraction(x))
        return r
    return SReal(Fraction(x))


def real(x):
    if isinstance(x, SReal):
        return x
    if isinstance(x, SInt):
        return SReal(z3.ToReal(x.t))
    if isinstance(x, SBV):
        return SReal(z3.ToReal(z3.BV2Int(x.t, True)))
    if isinstance(x, SBool):
        return SReal(z3.If(x.t, z3.RealVal(1), z3.RealVal(0)))
    if is_pyint(x):
        return SReal(Fraction(int(x)))
    if isinstance(x, (bool, float, Fraction)) or is_pyfloat(x):
        return rconst(x)
    import numpy
    if isinstance(x, numpy.bool_):
        return rconst(int(x))
    raise TypeError('not a number: %r' % (x,))


def is_num(x):
    import numpy
    return isinstance(x, (SInt, SReal, SBV, SBool, bool, int, float, Fraction,
                          numpy.number, numpy.bool_))


def is_sym(x):
    return isinstance(x, Sym)


def is_realish(x):
    return isinstance(x, SReal) or is_pyfloat(x)


def is_symbolic(x):
    """a value that depends on a symbolic input"""
    if isinstance(x, SReal):
        return not x.isconst
    return isinstance(x, Sym)


def _known_pos(t):
    """is the den term known to be positive on the path"""
    if isinstance(t, Fraction):
        return t > 0
    return ENG.pos.get(t.get_id(), (None,))[0] is True


def _den_lcm(d1, d2):
    """return lcm, factor for n1, factor for n2"""
    if d1 is d2 or (len(d1) == len(d2) and all(
            a.get_id() == b.get_id() for a, b in zip(d1, d2))):
        return d1, F1, F1
    rest = list(d2)
    f2 = []
    for a in d1:
        for i, b in enumerate(rest):
            if a.get_id() == b.get_id():
                del rest[i]
                break
        else:
            f2.append(a)
    # rest: in d2 not in d1
    d = tuple(sorted(list(d1) + rest, key=lambda t: t.get_id()))
    return d, rprod(rest), rprod(f2)


def _addlike(a, b, f):
    a, b = real(a), real(b)
    if not a.d and not b.d:
        n, d = f(a.n, b.n), ()
    else:
        d, fa, fb = _den_lcm(a.d, b.d)
        n = f(rmul(a.n, fa), rmul(b.n, fb))
        if isinstance(n, Fraction) and n == 0:
            d = ()
    if a.plain and b.plain:
        return SReal(n, d)
    bp, bn = (b.pinf, b.ninf) if f is radd else (b.ninf, b.pinf)
    nan = tor(a.nan, b.nan, tand(a.pinf, bn), tand(a.ninf, bp))
    return SReal(n, d, nan, tand(tor(a.pinf, bp), tnot(nan)),
                 tand(tor(a.ninf, bn), tnot(nan)))


def op_add(a, b):
    a, b = num(a), num(b)
    if is_realish(a) or is_realish(b):
        return _addlike(a, b, radd)
    return _intop(a, b, lambda x, y: x + y)


def op_sub(a, b):
    a, b = num(a), num(b)
    if is_realish(a) or is_realish(b):
        return _addlike(a, b, rsub)
    return _intop(a, b, lambda x, y: x - y)


def _intop(a, b, f):
    if isinstance(a, SBV) or isinstance(b, SBV):
        a, b = bvish(a), bvish(b)
        if isinstance(a, SInt) or isinstance(b, SInt):
            return mkint(f(iterm(a), iterm(b)))
        return mkbv(z3.simplify(f(bvterm(a), bvterm(b))))
    if isinstance(a, SInt) or isinstance(b, SInt):
        return mkint(z3.simplify(f(iterm(a), iterm(b))))
    return f(int(a), int(b))


def op_mul(a, b):
    a, b = num(a), num(b)
    if not (is_realish(a) or is_realish(b)):
        return _intop(a, b, lambda x, y: x * y)
    a, b = real(a), real(b)
    # cancel
    n = None
    ad, bd = a.d, b.d
    an, bn = a.n, b.n
    if bd and not isinstance(an, Fraction):
        for i, t in enumerate(bd):
            if t.get_id() == an.get_id():
                an = F1
                bd = bd[:i] + bd[i+1:]
                break
    if ad and not isinstance(bn, Fraction):
        for i, t in enumerate(ad):
            if t.get_id() == bn.get_id():
                bn = F1
                ad = ad[:i] + ad[i+1:]
                break
    n = rmul(an, bn)
    if isinstance(n, Fraction) and n == 0:
        d = ()
    elif ad and bd:
        d = tuple(sorted(ad + bd, key=lambda t: t.get_id()))
    else:
        d = ad or bd
    if a.plain and b.plain:
        return SReal(n, d)
    az, bz = tand(iszero(a)), tand(iszero(b))
    ai, bi = tor(a.pinf, a.ninf), tor(b.pinf, b.ninf)
    nan = tor(a.nan, b.nan, tand(ai, bz), tand(bi, az))
    inf = tand(tor(ai, bi), tnot(nan))
    aneg, bneg = isneg(a), isneg(b)
    same = tor(tand(aneg, bneg), tand(tnot(aneg), tnot(bneg)))
    return SReal(n, d, nan, tand(inf, same), tand(inf, tnot(same)))


def sign_num(a):
    """a term with the sign of the finite value of a"""
    n = a.n
    for t in a.d:
        if not _known_pos(t):
            n = rmul(n, t)
    return n


def iszero(a):
    """term: finite and zero"""
    return tand(rcmp('eq', a.n, F0), a.fin())


def isneg(a):
    """term: negative (incl -inf)"""
    return tor(a.ninf, tand(rcmp('lt', sign_num(a), F0), a.fin()))


def op_truediv(a, b):
    a, b = real(a), real(b)
    if b.isconst and b.plain:
        if b.n != 0:
            return op_mul(a, SReal(1 / b.n))
        ap = rcmp('lt', F0, sign_num(a))
        an = rcmp('lt', sign_num(a), F0)
        z = tor(a.nan, tand(rcmp('eq', a.n, F0), a.fin()))
        return SReal(F0, (), z, tor(a.pinf, tand(ap, a.fin())),
                     tor(a.ninf, tand(an, a.fin())))

    # reciprocal of b
    bn, zero = b.n, rcmp('eq', b.n, F0)
    if isinstance(bn, Fraction):
        # const numerator, b.d non trivial or flags
        if bn == 0:
            if not b.plain:
                return op_truediv_flags(a, b)
            return op_truediv(a, SReal(F0))
        inv = SReal(rmul(1 / bn, rprod(b.d)))
        return op_mul(a, inv) if b.plain else op_truediv_flags(a, b, inv)
    key = bn.get_id()
    safe = False
    st = ENG.pos.get(key)
    if st is not None and not ENG.guards:
        safe = True
        pos = st[0]
    else:
        pos = None
        if ENG.implied(mkbool(tor(zb(rcmp('lt', F0, bn)), tnot(b.fin())))):
            pos, safe = True, True
        elif ENG.implied(mkbool(tor(zb(rcmp('lt', bn, F0)), tnot(b.fin())))):
            pos, safe = False, True
        elif ENG.implied(mkbool(tor(tnot(zero), tnot(b.fin())))):
            safe = True
    if safe and b.plain:
        if st is None and not ENG.guards:
            ENG.pos[key] = (pos, bn)
        inv = SReal(rprod(b.d), (bn,))
        return op_mul(a, inv)
    # may be zero: use a safe denominator
    safe_bn = z3.If(zb(tand(tnot(zero), b.fin())), zr(bn), z3.RealVal(1))
    if ENG.implied(mkbool(zr(bn) >= 0)):
        ENG.pos[safe_bn.get_id()] = (True, safe_bn)
    inv = SReal(rprod(b.d), (safe_bn,))
    return op_truediv_flags(a, b, inv)


def op_truediv_flags(a, b, inv=None):
    if inv is None:
        inv = SReal(F0)
    a_fin = SReal(a.n, a.d)
    v = op_mul(a_fin, inv)
    bz = iszero(b)
    az = iszero(a)
    ai, bi = tor(a.pinf, a.ninf), tor(b.pinf, b.ninf)
    nan = tor(a.nan, b.nan, tand(ai, bi), tand(az, bz))
    aneg = isneg(a)
    # zero denominators are taken as +0
    bneg = tand(isneg(b), tnot(bz))
    same = tor(tand(aneg, bneg), tand(tnot(aneg), tnot(bneg)))
    inf = tand(tor(ai, bz), tnot(nan))
    # finite / inf = 0
    zv = tand(bi, tnot(tor(a.nan, ai)))
    n = rite(zv, F0, v.n)
    return SReal(n, v.d, nan, tand(inf, same), tand(inf, tnot(same)))


def op_floordiv(a, b):
    a, b = num(a), num(b)
    if is_realish(a) or is_realish(b):
        return op_floor(op_truediv(a, b))
    if not is_sym(a) and not is_sym(b):
        return int(a) // int(b)
    if not is_sym(b) and int(b) > 0:
        return mkint(z3.simplify(iterm(a) / int(b)))
    if not is_sym(b) and int(b) < 0:
        return op_floordiv(op_sub(0, a), -int(b))
    raise EngineLimit('floordiv by symbolic')


def op_mod(a, b):
    a, b = num(a), num(b)
    if is_realish(a) or is_realish(b):
        return op_sub(a, op_mul(op_floordiv(a, b), b))
    if not is_sym(a) and not is_sym(b):
        return int(a) % int(b)
    if not is_sym(b) and int(b) > 0:
        return mkint(z3.simplify(iterm(a) % int(b)))
    raise EngineLimit('mod by symbolic')


def op_pow(a, b):
    a, b = num(a), num(b)
    if isinstance(b, SReal) and b.isconst and b.plain:
        b = b.n if b.n.denominator != 1 else int(b.n)
        if isinstance(b, int):
            a = real(a)
    if is_pyfloat(b) and not isinstance(b, Fraction):
        if float(b) == int(b):
            a, b = real(a), int(b)
        else:
            b = Fraction(float(b))
    if is_pyint(b):
        b = int(b)
        if not is_sym(a):
            if is_pyint(a) and b >= 0:
                return int(a) ** b
            return rconst(Fraction(a) ** b)
        if b >= 0:
            out = 1
            for _ in range(b):
                out = op_mul(out, a)
            return out if b > 0 else (real(1) if is_realish(a) else 1)
        return op_truediv(1, op_pow(a, -b))
    if isinstance(b, Fraction):
        if b == Fraction(1, 2):
            return op_sqrt(a)
        if b == Fraction(-1, 2):
            return op_truediv(1, op_sqrt(a))
        if b.denominator == 2:
            return op_mul(op_pow(a, int(b - Fraction(1, 2))), op_sqrt(a))
        if not is_symbolic(a):
            return rconst(float(a) ** float(b))
        return op_uf('pow_%s' % b, a)
    if isinstance(a, (int, float)) and not is_sym(a) and isinstance(b, (SInt, SBV)):
        if a == 2 and isinstance(b, SInt):
            v = b.__index__()
            return 2 ** v
    raise EngineLimit('symbolic exponent')


def _bitop(name, f):
    def op(a, b):
        if isinstance(a, (SBool, bool)) and isinstance(b, (SBool, bool)):
            return {'and': And, 'or': Or}.get(name, lambda x, y: x ^ y)(a, b)
        if is_realish(a) or is_realish(b):
            raise TypeError(
                'unsupported operand type(s) for bit operation: float')
        if not is_sym(a) and not is_sym(b):
            return f(int(a), int(b))
        if name == 'and':
            # flag tests on plain ints: v & 0
            if not is_sym(b) and int(b) == 0 or not is_sym(a) and int(a) == 0:
                return 0
        if name == 'or':
            if not is_sym(b) and int(b) == 0:
                return num(a)
            if not is_sym(a) and int(a) == 0:
                return num(b)
        return mkbv(z3.simplify(f(bvterm(a), bvterm(b))))
    return op


op_and = _bitop('and', lambda x, y: x & y)
op_or = _bitop('or', lambda x, y: x | y)
op_xor = _bitop('xor', lambda x, y: x ^ y)
op_lshift = _bitop('lshift', lambda x, y: x << y)
op_rshift = _bitop('rshift', lambda x, y: x >> y)


def _radicand(a):
    """what a is the root of"""
    if a.d or isinstance(a.n, Fraction) or not ENG.sqrt_of:
        return None
    r = ENG.sqrt_of.get(a.n.get_id())
    return None if r is None else r[1]


def _cmp_root(op, a, b, ra, rb):
    """comparison with a root (of what is not negative, else the root is
    nan, which the caller takes care of)"""
    def t(o, x, y):
        return bterm(_cmp(o, SReal(x.n, x.d), SReal(y.n, y.d)))
    zero = SReal(F0)
    if ra is not None and rb is not None:
        return t(op, ra, rb)
    if ra is not None:
        b = SReal(b.n, b.d)
        sq = op_mul(b, b)
        return tand(t('lt' if op == 'lt' else 'le', zero, b), t(op, ra, sq))
    a = SReal(a.n, a.d)
    sq = op_mul(a, a)
    if op == 'eq':
        return tand(t('le', zero, a), t(op, sq, rb))
    return tor(t(op, a, zero), t(op, sq, rb))


def _cmp(op, a, b):
    """op in lt, le, eq"""
    a, b = num(a), num(b)
    if is_realish(a) or is_realish(b):
        a, b = real(a), real(b)
        ra, rb = _radicand(a), _radicand(b)
        if ra is not None or rb is not None:
            base = _cmp_root(op, a, b, ra, rb)
        elif not a.d and not b.d:
            base = rcmp(op, a.n, b.n)
        else:
            d, fa, fb = _den_lcm(a.d, b.d)
            an, bn = rmul(a.n, fa), rmul(b.n, fb)
            if op != 'eq':
                for t in d:
                    if not _known_pos(t):
                        an, bn = rmul(an, t), rmul(bn, t)
            base = rcmp(op, an, bn)
        if a.plain and b.plain:
            return mkbool(base)
        ok = tand(tnot(a.nan), tnot(b.nan))
        fin = tand(a.fin(), b.fin())
        if op == 'eq':
            t = tor(tand(fin, base), tand(a.pinf, b.pinf),
                    tand(a.ninf, b.ninf))
        else:
            t = tor(tand(fin, base),
                    tand(a.ninf, tnot(b.ninf)), tand(b.pinf, tnot(a.pinf)))
            if op == 'le':
                t = tor(t, tand(a.ninf, b.ninf), tand(a.pinf, b.pinf))
        return mkbool(tand(ok, t))
    if isinstance(a, SBV) or isinstance(b, SBV):
        a, b = bvish(a), bvish(b)
        if not (isinstance(a, SInt) or isinstance(b, SInt)):
            x, y = bvterm(a), bvterm(b)
            return mkbool(z3.simplify(
                {'lt': lambda: x < y, 'le': lambda: x <= y,
                 'eq': lambda: x == y}[op]()))
    if isinstance(a, (SInt, SBV)) or isinstance(b, (SInt, SBV)):
        x, y = iterm(a), iterm(b)
        return mkbool(z3.simplify(
            {'lt': lambda: x < y, 'le': lambda: x <= y,
             'eq': lambda: x == y}[op]()))
    return {'lt': a < b, 'le': a <= b, 'eq': a == b}[op]


def op_lt(a, b):
    return _cmp('lt', a, b)


def op_le(a, b):
    return _cmp('le', a, b)


def op_gt(a, b):
    return _cmp('lt', b, a)


def op_ge(a, b):
    return _cmp('le', b, a)


def op_eq(a, b):
    if isinstance(a, (SBool, bool)) and isinstance(b, (SBool, bool)):
        return a == b
    if not (is_num(a) and is_num(b)):
        return a == b
    return _cmp('eq', a, b)


def op_ne(a, b):
    r = op_eq(a, b)
    return Not(r)


def op_abs(a):
    a = num(a)
    if isinstance(a, SReal):
        if a.isconst:
            return SReal(abs(a.n), (), a.nan, tor(a.pinf, a.ninf), False)
        if a.plain:
            neg = op_lt(a, 0)
            return ite(neg, op_sub(0, a), a)
        neg = mkbool(rcmp('lt', sign_num(a), F0))
        r = ite(neg, SReal(rneg(a.n), a.d), SReal(a.n, a.d))
        return SReal(r.n, r.d, a.nan, tor(a.pinf, a.ninf), False)
    if is_sym(a):
        return ite(op_lt(a, 0), op_sub(0, a), a)
    return abs(a)


def same(a, b):
    """same value, nan == nan"""
    a0, b0 = num(a), num(b)
    if isinstance(a0, SReal) or isinstance(b0, SReal):
        a0, b0 = real(a0), real(b0)
        return Or(op_eq(a0, b0), And(mkbool(a0.nan), mkbool(b0.nan)))
    return op_eq(a, b)


def raw_same(a, b):
    """same(a, b) as a term for the solver, without rewriting; None when
    both are constants"""
    a, b = num(a), num(b)
    ca = not isinstance(a, Sym) or (isinstance(a, SReal) and a.isconst)
    cb = not isinstance(b, Sym) or (isinstance(b, SReal) and b.isconst)
    if ca and cb:
        return None
    if isinstance(a, SReal) or isinstance(b, SReal):
        a, b = real(a), real(b)

        def prod(n, ds):
            n = zr(n)
            for d in ds:
                n = n * zr(d)
            return n
        eq = prod(a.n, b.d) == prod(b.n, a.d)
        if a.plain and b.plain:
            return eq

        def flags(x):
            return [zb(x.nan), zb(x.pinf), zb(x.ninf)]
        fa, fb = flags(a), flags(b)
        return z3.Or(
            z3.And(eq, *[z3.Not(f) for f in fa + fb]),
            *[z3.And(x, y) for x, y in zip(fa, fb)])
    if isinstance(a, SBV) or isinstance(b, SBV):
        return bvterm(a) == bvterm(b)
    return iterm(a) == iterm(b)


def ite(c, a, b):
    c = bterm(c)
    if c is True:
        return a
    if c is False:
        return b
    if a is b:
        return a
    ENG_d = ENG.decided.get(c.get_id())
    if ENG_d is not None:
        return a if ENG_d[0] else b
    if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
        return mkbool(bite(c, bterm(a), bterm(b)))
    if not is_num(a) or not is_num(b):
        if hasattr(a, '_is_symarray') or hasattr(b, '_is_symarray'):
            import symx.nps as nps
            return nps.where(SBool(c), a, b)
        if a is None and b is None:
            return None
        if isinstance(a, (str, tuple)) and type(a) is type(b) and a == b:
            return a
        # cannot merge: fork
        return a if ENG.decide(c) else b
    a, b = num(a), num(b)
    if is_realish(a) or is_realish(b):
        a, b = real(a), real(b)
        if not a.d and not b.d:
            n, d = rite(c, a.n, b.n), ()
        else:
            d, fa, fb = _den_lcm(a.d, b.d)
            n = rite(c, rmul(a.n, fa), rmul(b.n, fb))
        if a.plain and b.plain:
            return SReal(n, d)
        return SReal(n, d, bite(c, a.nan, b.nan), bite(c, a.pinf, b.pinf),
                     bite(c, a.ninf, b.ninf))
    if isinstance(a, SBV) or isinstance(b, SBV):
        a, b = bvish(a), bvish(b)
        if not (isinstance(a, SInt) or isinstance(b, SInt)):
            return mkbv(z3.If(c, bvterm(a), bvterm(b)))
    x, y = iterm(a), iterm(b)
    if isinstance(x, int) and isinstance(y, int):
        if x == y:
            return x
    return mkint(z3.If(c, x if not isinstance(x, int) else z3.IntVal(x),
                       y if not isinstance(y, int) else z3.IntVal(y)))


# ---- functions -----------------------------------------------------------

def _floor_term(t):
    """z3 int term of floor of the real"""
    if isinstance(t, Fraction):
        return math.floor(t)
    return z3.ToInt(t)


def _finite_or_fork(a):
    a = real(a)
    if not a.plain:
        if ENG.implied(mkbool(a.fin())):
            return SReal(a.n, a.d)
        if not bool(mkbool(a.fin())):
            # a concrete kind of non-finite
            if bool(mkbool(a.nan)):
                return NAN
            return PINF if bool(mkbool(a.pinf)) else NINF
        return SReal(a.n, a.d)
    return a


def op_floor_int(a):
    if not is_realish(a):
        return num(a)
    a = _finite_or_fork(a)
    if not a.plain:
        raise (ValueError if a.nan else OverflowError)(
            'cannot convert float to integer')
    return mkint(_floor_term(a.term()))


def op_ceil_int(a):
    if not is_realish(a):
        return num(a)
    r = op_floor_int(op_sub(0, a))
    return op_sub(0, r)


def op_trunc_int(a):
    if not is_realish(a):
        return num(a)
    a = _finite_or_fork(a)
    if not a.plain:
        raise (ValueError if a.nan else OverflowError)(
            'cannot convert float to integer')
    return ite(op_ge(a, 0), op_floor_int(a), op_ceil_int(a))


def op_rint_int(a):
    if not is_realish(a):
        return num(a)
    a = _finite_or_fork(a)
    if not a.plain:
        raise (ValueError if a.nan else OverflowError)(
            'cannot convert float to integer')
    h = op_add(a, Fraction(1, 2))
    r = op_floor_int(h)
    tie = And(op_eq(h, r), op_eq(op_mod(r, 2), 1))
    return ite(tie, op_sub(r, 1), r)


def _keepflags(f):
    def g(a):
        a = real(a)
        if a.plain:
            return real(f(a))
        v = real(f(SReal(a.n, a.d)))
        return SReal(v.n, v.d, a.nan, a.pinf, a.ninf)
    return g


op_floor = _keepflags(op_floor_int)
op_ceil = _keepflags(op_ceil_int)
op_rint = _keepflags(op_rint_int)
op_trunc = _keepflags(op_trunc_int)


def _small(t, limit=60):
    """few enough nodes to multiply out"""
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if len(seen) > limit:
            return False
        todo += x.children()
    return True


def op_sqrt(a):
    a = real(a)
    if a.isconst:
        if a.plain:
            if a.n < 0:
                return NAN
            p, q = math.isqrt(a.n.numerator), math.isqrt(a.n.denominator)
            if p*p == a.n.numerator and q*q == a.n.denominator:
                return SReal(Fraction(p, q))
            return rconst(math.sqrt(a.n))
        return NAN if (a.nan or a.ninf) else PINF
    # the same root for terms which differ in the order of operations only
    t = zr(a.term())
    if t.get_id() not in ENG.sqrt_cache:
        t = (t, z3.simplify(t, som=_small(t), sort_sums=True,
                            mul_to_power=True))
        for x in t:
            if x.get_id() in ENG.sqrt_cache:
                ENG.sqrt_cache[t[0].get_id()] = (
                    ENG.sqrt_cache[x.get_id()][0], t)
    else:
        t = (t,)
    key = t[0].get_id()
    if key in ENG.sqrt_cache:
        s = ENG.sqrt_cache[key][0]
    else:
        s = z3.Real(ENG.fresh_name('sqrt'))
        # sqrt(num/den): s >= 0, s^2 den = num where num/den >= 0
        sn = sign_num(a)
        nonneg = zb(rcmp('le', F0, sn))
        dprod = zr(rprod(a.d))
        ENG.solver.add(z3.And(s >= 0, z3.Implies(
            nonneg, s * s * dprod == zr(a.n))))
        ENG.pc.append(z3.And(s >= 0, z3.Implies(
            nonneg, s * s * dprod == zr(a.n))))
        ENG.model = None
        for x in t:
            ENG.sqrt_cache[x.get_id()] = (s, t)
        ENG.sqrt_of[s.get_id()] = (s, a)
    neg = rcmp('lt', sign_num(a), F0)
    if neg is not False and ENG.implied(mkbool(tor(tnot(neg), tnot(a.fin())))):
        neg = False
    nan = tor(a.nan, a.ninf, tand(neg, a.fin()))
    if isinstance(nan, z3.BoolRef) and a.plain is False:
        pass
    return SReal(s, (), nan, a.pinf, False)


_UF = {}


def op_uf(name, *args, axioms=None):
    """uninterpreted real function of finite reals"""
    args = [real(a) for a in args]
    if all(a.isconst and a.plain for a in args):
        try:
            f = getattr(math, name, None)
            if f is not None:
                return rconst(f(*[float(a) for a in args]))
        except (ValueError, OverflowError):
            return NAN
    f = _UF.get((name, len(args)))
    if f is None:
        f = _UF[(name, len(args))] = z3.Function(
            'uf_' + name, *([z3.RealSort()] * (len(args) + 1)))
    nan = tor(*[tnot(a.fin()) for a in args])
    t = f(*[zr(a.term()) for a in args])
    ENG.stats.inc('uf_apps')
    r = SReal(t, (), nan)
    if axioms is not None:
        for ax in axioms(r, *args):
            ax = bterm(ax)
            if ax is not True:
                ENG.pc.append(zb(ax))
                ENG.solver.add(zb(ax))
        ENG.model = None
    return r


def op_exp(a):
    a = real(a)
    if a.isconst:
        return rconst(math.exp(a.const())) if not a.nan else NAN
    return op_uf('exp', a, axioms=lambda r, x: [
        op_gt(r, 0), Implies(op_le(x, 0), op_le(r, 1)),
        Implies(op_eq(x, 0), op_eq(r, 1)), Implies(op_gt(x, 0), op_gt(r, 1))])


def op_max(a, b):
    """np.maximum"""
    return _mm(a, b, op_gt)


def op_min(a, b):
    return _mm(a, b, op_lt)


def _mm(a, b, cmp):
    r = ite(cmp(a, b), a, b)
    if isinstance(r, SReal):
        ra, rb = real(a), real(b)
        nan = tor(ra.nan, rb.nan)
        if nan is not False:
            r = ite(mkbool(nan), NAN, r)
    return r


def op_isnan(a):
    a = num(a)
    if isinstance(a, SReal):
        return mkbool(a.nan)
    if is_pyfloat(a):
        return math.isnan(a)
    return False


def op_isfinite(a):
    a = num(a)
    if isinstance(a, SReal):
        return mkbool(a.fin())
    if is_pyfloat(a):
        return math.isfinite(a)
    return True


def op_isinf(a):
    a = num(a)
    if isinstance(a, SReal):
        return mkbool(tor(a.pinf, a.ninf))
    return False


# --------------------------------------------------------------------------
# model evaluation
# --------------------------------------------------------------------------

def z3val(v):
    """z3 value -> python number"""
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_bv_value(v):
        return v.as_signed_long()
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(30)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    raise ValueError('no value: %s' % v)


def meval(model, x):
    """evaluate a value under a model -> python number"""
    if isinstance(x, SReal):
        ev = lambda t: (t if t is True or t is False else  # noqa
                        z3.is_true(model.eval(t, model_completion=True)))
        if ev(x.nan):
            return math.nan
        if ev(x.pinf):
            return math.inf
        if ev(x.ninf):
            return -math.inf
        n = x.n if isinstance(x.n, Fraction) else z3val(
            model.eval(x.n, model_completion=True))
        d = Fraction(1)
        for t in x.d:
            d *= Fraction(z3val(model.eval(t, model_completion=True)))
        return float(Fraction(n) / d)
    if isinstance(x, (SInt, SBV, SBool)):
        return z3val(model.eval(x.t, model_completion=True))
    if isinstance(x, Fraction):
        return float(x)
    return x
