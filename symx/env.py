"""
The two environments a harness runs in: SymEnv (solver) and ConcEnv (replay on
the real code with real numpy/numba/galsim/scipy).
"""
import math


class Stop(BaseException):
    """stop the job (violation found)"""


class BaseEnv:
    symbolic = False

    def arr_real(self, name, shape, lo=None, hi=None, dtype='f8'):
        return self._arr(name, shape, dtype,
                         lambda n: self.real(n, lo, hi))

    def arr_bv(self, name, shape, bits=30, dtype='i4'):
        return self._arr(name, shape, dtype, lambda n: self.bv(n, bits))

    def arr_int(self, name, shape, lo=None, hi=None, dtype='i8'):
        return self._arr(name, shape, dtype, lambda n: self.int(n, lo, hi))

    def arr_bool(self, name, shape):
        return self._arr(name, shape, '?', lambda n: self.bool(n))

    def _arr(self, name, shape, dtype, f):
        np = self.np
        if isinstance(shape, int):
            shape = (shape,)
        a = np.zeros(shape, dtype=dtype)
        import itertools
        for i in itertools.product(*[range(s) for s in shape]):
            a[i] = f(name + '_' + '_'.join(str(k) for k in i))
        return a

    def attempt(self, f, *a, **k):
        """(value, None) or (None, exception)"""
        try:
            return f(*a, **k), None
        except Exception as e:
            if type(e).__name__ == 'SymxInternal':
                raise
            return None, e

    def shape_is(self, label, got, shape):
        self.check(label, tuple(got.shape) == tuple(shape))


# --------------------------------------------------------------------------

class SymEnv(BaseEnv):
    symbolic = True

    def __init__(self, runner, cfg):
        from . import core, nps, load
        self.C = core
        self.np = nps
        self.ENG = core.ENG
        self.runner = runner
        self.world = load.World()
        self.nchecks = 0
        self.obs = []
        self.raw = []
        self.labels = set()
        self.cfg = cfg
        C = core
        self.And, self.Or, self.Not = C.And, C.Or, C.Not
        self.Implies = C.Implies
        self.ite = C.ite

    def mod(self, name):
        return self.world.load(name)

    # ---- inputs
    def _reg(self, name, v):
        assert name not in self.ENG.inputs, name
        self.ENG.inputs[name] = v
        return v

    def real(self, name, lo=None, hi=None, pos=False):
        C = self.C
        z = C.z3.Real(name)
        v = self._reg(name, C.SReal(z))
        if any(isinstance(x, C.Sym) for x in (lo, hi)):
            if lo is not None:
                self.ENG.assume(v >= lo)
            if hi is not None:
                self.ENG.assume(v <= hi)
            if pos:
                self.ENG.assume(v > 0)
            return v
        cs = []
        if lo is not None:
            cs.append(v >= lo)
        if hi is not None:
            cs.append(v <= hi)
        if pos:
            cs.append(v > 0)
        if lo is None:
            lo = 0 if hi is None or hi >= 0 else hi - 1
        if hi is None:
            hi = lo + 2 if lo >= 0 else 2
        assert lo <= hi and (not pos or hi > 0), name
        lo, hi = C.Fraction(lo), C.Fraction(hi)
        if pos and lo < 0:
            lo = C.Fraction(0)
        self.ENG.assume_fresh(z, cs, C.z3.RealVal((lo + hi) / 2))
        return v

    def xreal(self, name):
        """an extended real: finite, nan or +-inf"""
        C = self.C
        k = self.int(name + '.kind', 0, 3)
        v = self._reg(name, C.SReal(C.z3.Real(name)))
        return C.SReal(v.n, (), C.bterm(k == 1), C.bterm(k == 2),
                       C.bterm(k == 3))

    def int(self, name, lo=None, hi=None):
        C = self.C
        z = C.z3.Int(name)
        v = self._reg(name, C.SInt(z))
        cs = []
        if lo is not None:
            cs.append(v >= lo)
        if hi is not None:
            cs.append(v <= hi)
        if any(isinstance(x, C.Sym) for x in (lo, hi)) or (
                lo is not None and hi is not None and not lo <= hi):
            for c in cs:
                self.ENG.assume(c)
        else:
            self.ENG.assume_fresh(z, cs, C.z3.IntVal(
                int(lo if lo is not None else hi if hi is not None else 0)))
        return v

    def bool(self, name):
        C = self.C
        return self._reg(name, C.SBool(C.z3.Bool(name)))

    def bv(self, name, bits=30):
        C = self.C
        v = C.z3.BitVec(name, C.BVW)
        s = self._reg(name, C.SBV(v))
        self.ENG.assume_fresh(v, [C.SBool(C.z3.ULT(v, 1 << bits))],
                              C.z3.BitVecVal(0, C.BVW))
        return s

    def choose(self, name, n):
        """a concrete int in range(n), the path forks"""
        return self.int(name, 0, n - 1).__index__()

    def rng(self):
        return self.np.random.RandomState(1)

    def uf(self, name, *args):
        return self.C.op_uf(name, *args)

    def patch(self, modname, attr, value):
        """replace a module attribute for this run"""
        setattr(self.mod(modname), attr, value)

    def median_limit(self, n):
        """medians of more than this many values are only known to be within
        their range, and to be the same for the same values"""
        self.ENG.median_exact = n

    def draws(self, kind='rng_normal'):
        """random numbers handed out so far"""
        n, out = 0, []
        while '%s!%d' % (kind, n) in self.ENG.inputs:
            out.append(self.ENG.inputs['%s!%d' % (kind, n)])
            n += 1
        return out

    def assume(self, c):
        self.ENG.assume(c)

    def possible(self, c):
        """python bool: fork on the condition"""
        return bool(self.C.mkbool(self.C.bterm(c)))

    fork = possible

    # ---- checks
    def eq(self, a, b):
        return self.C.op_eq(a, b)

    def same(self, a, b):
        return self.C.same(a, b)

    def le(self, a, b):
        return self.C.op_le(a, b)

    lt_strict = property(lambda self: self.C.op_lt)

    def close(self, a, b):
        return self.C.op_eq(a, b)

    def isnan(self, a):
        return self.C.op_isnan(a)

    def check(self, label, cond, margin=None):
        C = self.C
        self.nchecks += 1
        self.labels.add(label)
        if isinstance(cond, self.np.SymArray):
            cond = self.np.all(cond)
        t = C.bterm(cond)
        self.runner.do_check(self, label, t, margin)

    def check_eq(self, label, got, want, tol=None):
        C, np = self.C, self.np
        self.labels.add(label)
        if isinstance(got, np.MaskedSel):
            got = got.concretise()
        if isinstance(want, np.MaskedSel):
            want = want.concretise()
        if isinstance(got, (list, tuple)):
            got = np.array(got)
        if isinstance(want, (list, tuple)):
            want = np.array(want)
        ga, wa = isinstance(got, np.SymArray), isinstance(want, np.SymArray)
        if ga or wa:
            if not ga or (wa and got.shape != want.shape) or (
                    not wa and not C.is_num(want)):
                self.check(label, False)
                return
            g = list(got._a.ravel())
            w = list(want._a.ravel()) if wa else [want] * len(g)
        else:
            g, w = [got], [want]
        self.observe(label, g)
        conds, marg = [], []
        for a, b in zip(g, w):
            if not C.is_num(a) or not C.is_num(b):
                conds.append(bool(a == b) if not C.is_sym(a) and not C.is_sym(
                    b) else False)
                continue
            c = C.bterm(C.same(a, b))
            if c is True:
                t = C.raw_same(a, b)
                if t is not None:
                    self.raw.append((label, t))
            if tol is not None and c is not True:
                c = C.tor(c, C.bterm(C.op_le(C.op_abs(C.op_sub(a, b)),
                                             C.Fraction(tol))))
            conds.append(c)
            if c is not True and (isinstance(a, C.SReal)
                                  or isinstance(b, C.SReal)):
                m = C.bterm(C.op_gt(C.op_abs(C.op_sub(a, b)),
                                    C.Fraction(1, 64)))
                marg.append(m)
        self.check(label, C.mkbool(C.tand(*conds)),
                   margin=C.tor(*marg) if marg else None)

    def observe(self, label, vals):
        if self.C.is_num(vals):
            vals = [vals]
        elif isinstance(vals, self.np.SymArray):
            vals = list(vals._a.ravel())
        self.obs.append((label, list(vals)))

    def note(self, s):
        pass


# --------------------------------------------------------------------------

class ConcRNG:
    def __init__(self, env):
        self.env = env

    def _one(self, kind):
        n = '%s!%d' % (kind, self.env.rngn.get(kind, 0))
        self.env.rngn[kind] = self.env.rngn.get(kind, 0) + 1
        return self.env.get(n, 0.25 if kind == 'rng_uniform' else 0.5)

    def _draw(self, kind, size):
        import numpy as np
        if size is None:
            return float(self._one(kind))
        a = np.zeros(size)
        f = a.ravel()
        for i in range(f.size):
            f[i] = self._one(kind)
        return f.reshape(a.shape)

    def normal(self, loc=0.0, scale=1.0, size=None):
        return loc + scale * self._draw('rng_normal', size)

    def standard_normal(self, size=None):
        return self._draw('rng_normal', size)

    def randn(self, *s):
        return self._draw('rng_normal', s if s else None)

    def uniform(self, low=0.0, high=1.0, size=None):
        return low + (high - low) * self._draw('rng_uniform', size)

    def random_sample(self, size=None):
        return self._draw('rng_uniform', size)

    def randint(self, low, high=None, size=None):
        if high is None:
            low, high = 0, low
        return int(self._one('rng_int')) if size is None else None


class ConcEnv(BaseEnv):
    def __init__(self, model, cfg):
        import numpy
        self.np = numpy
        self.model = model
        self.cfg = cfg
        self.results = []
        self.obs = []
        self.rngn = {}
        self.patches = []
        self.assume_failed = False

    def mod(self, name):
        import importlib
        return importlib.import_module(name)

    def get(self, name, default=0):
        v = self.model.get(name, default)
        if isinstance(v, str):
            return float(v)
        return v

    def real(self, name, lo=None, hi=None, pos=False):
        return self.np.float64(self.get(name, lo if lo is not None else 0.5))

    def xreal(self, name):
        k = self.int(name + '.kind', 0, 3)
        return self.np.float64([self.get(name, 0.5), math.nan, math.inf,
                                -math.inf][k])

    def int(self, name, lo=None, hi=None):
        return int(self.get(name, lo if lo is not None else 0))

    def bool(self, name):
        return bool(self.get(name, False))

    def bv(self, name, bits=30):
        return int(self.get(name, 0))

    def choose(self, name, n):
        return self.int(name, 0, n - 1)

    def rng(self):
        return ConcRNG(self)

    def uf(self, name, *args):
        return getattr(math, name)(*args)

    def patch(self, modname, attr, value):
        m = self.mod(modname)
        self.patches.append((m, attr, m.__dict__.get(attr, self)))
        setattr(m, attr, value)

    def median_limit(self, n):
        pass

    def unpatch(self):
        for m, attr, old in reversed(self.patches):
            if old is self:
                delattr(m, attr)
            else:
                setattr(m, attr, old)

    def draws(self, kind='rng_normal'):
        return [self.get('%s!%d' % (kind, i), 0.25 if kind == 'rng_uniform'
                         else 0.5) for i in range(self.rngn.get(kind, 0))]

    def assume(self, c):
        if not bool(self.np.all(c)):
            self.assume_failed = True

    def possible(self, c):
        return bool(c)

    fork = possible

    def And(self, *a):
        return all(bool(x) for x in a)

    def Or(self, *a):
        return any(bool(x) for x in a)

    def Not(self, a):
        return not bool(a)

    def Implies(self, a, b):
        return (not bool(a)) or bool(b)

    def ite(self, c, a, b):
        return a if c else b

    def _cl(self, a, b, tol=None):
        a, b = float(a), float(b)
        if math.isnan(a) or math.isnan(b):
            return math.isnan(a) and math.isnan(b)
        if math.isinf(a) or math.isinf(b):
            return a == b
        t = tol if tol is not None else 1e-6
        return abs(a - b) <= t * (1 + abs(a) + abs(b))

    def eq(self, a, b):
        if isinstance(a, (str, type(None))) or isinstance(b, (str, type(None))):
            return a == b
        return self._cl(a, b)

    same = eq
    close = eq

    def le(self, a, b):
        return float(a) <= float(b) + 1e-6 * (1 + abs(float(a)))

    def lt_strict(self, a, b):
        return float(a) < float(b)

    def isnan(self, a):
        return math.isnan(a)

    def check(self, label, cond, margin=None):
        self.results.append([label, bool(self.np.all(cond))])

    def check_eq(self, label, got, want, tol=None):
        np = self.np
        if isinstance(got, (list, tuple)):
            got = np.array(got)
        if isinstance(want, (list, tuple)):
            want = np.array(want)
        ga, wa = isinstance(got, np.ndarray), isinstance(want, np.ndarray)
        if ga or wa:
            if (not ga and not (isinstance(got, np.generic) and want.shape == ())
                    ) or (wa and got.shape != want.shape):
                self.check(label, False)
                return
            g = list(np.asarray(got).ravel())
            w = list(want.ravel()) if wa else [want] * len(g)
        else:
            g, w = [got], [want]
        self.observe(label, g)
        ok = True
        t = tol
        if t is None and hasattr(got, 'dtype') and got.dtype == np.float32:
            t = 1e-4
        for a, b in zip(g, w):
            if isinstance(a, (str, np.str_, type(None))) or isinstance(
                    b, (str, np.str_, type(None))):
                ok = ok and (a == b)
            else:
                ok = ok and self._cl(a, b, t)
        self.check(label, ok)

    def observe(self, label, vals):
        if not isinstance(vals, (list, tuple)):
            vals = list(self.np.asarray(vals).ravel())
        out = []
        for v in vals:
            try:
                out.append(float(v))
            except (TypeError, ValueError):
                out.append(None)
        self.obs.append((label, out))

    def note(self, s):
        pass
