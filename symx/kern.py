"""
State-merging interpreter for the @njit kernels.

A kernel is run once: both sides of a symbolic branch are executed under
guards, and assignments are merged (``x = ite(guard, new, old)``), so that the
number of paths does not grow with the number of pixels.  Array accesses at
symbolic indices are turned into ite chains; an index which can be out of
bounds raises IndexError on a forked path (numba itself does not check).

Kernels with statements that are not handled here are run as plain python by
the forking engine.
"""
import ast

from . import core as C
from . import nps
from .core import ENG, mkbool, bterm, tand, tor, tnot, ite

_OK = (
    ast.FunctionDef, ast.arguments, ast.arg, ast.Assign, ast.AugAssign,
    ast.AnnAssign, ast.For, ast.While, ast.If, ast.Return, ast.Expr, ast.Pass,
    ast.Break, ast.Continue, ast.Raise, ast.Assert, ast.Name, ast.Constant,
    ast.BinOp, ast.UnaryOp, ast.BoolOp, ast.Compare, ast.IfExp, ast.Call,
    ast.Attribute, ast.Subscript, ast.Slice, ast.Tuple, ast.List,
    ast.keyword, ast.operator, ast.unaryop, ast.boolop, ast.cmpop,
    ast.expr_context, ast.JoinedStr, ast.FormattedValue,
)

_BIN = {
    ast.Add: C.op_add, ast.Sub: C.op_sub, ast.Mult: C.op_mul,
    ast.Div: C.op_truediv, ast.FloorDiv: C.op_floordiv, ast.Mod: C.op_mod,
    ast.Pow: C.op_pow, ast.BitAnd: C.op_and, ast.BitOr: C.op_or,
    ast.BitXor: C.op_xor, ast.LShift: C.op_lshift, ast.RShift: C.op_rshift,
}
import operator as _op  # noqa
_PYBIN = {
    ast.Add: _op.add, ast.Sub: _op.sub, ast.Mult: _op.mul,
    ast.Div: _op.truediv, ast.FloorDiv: _op.floordiv, ast.Mod: _op.mod,
    ast.Pow: _op.pow, ast.BitAnd: _op.and_, ast.BitOr: _op.or_,
    ast.BitXor: _op.xor, ast.LShift: _op.lshift, ast.RShift: _op.rshift,
}
_CMP = {
    ast.Lt: C.op_lt, ast.LtE: C.op_le, ast.Gt: C.op_gt, ast.GtE: C.op_ge,
    ast.Eq: C.op_eq, ast.NotEq: C.op_ne,
}


def supported(node):
    for n in ast.walk(node):
        if not isinstance(n, _OK):
            return False
        if isinstance(n, ast.FunctionDef) and n is not node:
            return False
        if isinstance(n, (ast.For, ast.While)) and n.orelse:
            return False
        if isinstance(n, ast.Slice) or True:
            pass
    return True


class _Missing:
    pass


_conj_cache = {}


def conj(g):
    """ids of the conjuncts of a guard"""
    if g is True:
        return frozenset()
    i = g.get_id()
    r = _conj_cache.get(i)
    if r is None:
        ids = set()
        todo = [g]
        while todo:
            t = todo.pop()
            if C.z3.is_and(t):
                todo.extend(t.children())
            else:
                ids.add(t.get_id())
        ids.add(i)
        r = _conj_cache[i] = (frozenset(ids), g)
    return r[0]


def implies(g, h):
    """syntactic: the guard g implies the guard h"""
    if h is True:
        return True
    if g is True:
        return False
    cg = conj(g)
    if h.get_id() in cg:
        return True
    if C.z3.is_or(h):
        return any(x.get_id() in cg for x in h.children())
    return (conj(h) - {h.get_id()} or {h.get_id()}) <= cg


class Lazy:
    """a local assigned under guards, merged only when it is read"""

    def __init__(self, entries):
        self.entries = entries

    def assigned(self, g, v):
        es = [e for e in self.entries if not implies(e[0], g)]
        if g is True:
            return v
        if not es:
            return Lazy([(g, v)])
        return Lazy(es + [(g, v)])

    def read(self, g):
        out = None
        stack = []
        for h, v in reversed(self.entries):
            if implies(g, h):
                out = v
                break
            stack.append((h, v))
        if out is None:
            # never assigned on the other paths
            out = stack.pop()[1]
        for h, v in reversed(stack):
            out = _merge(h, v, out)
        return out


class Frame:
    def __init__(self):
        self.loc = {}
        self.ret = _Missing
        self.returned = False


class Loop:
    def __init__(self):
        self.brk = False
        self.cont = False


class Kernel:
    def __init__(self, func, node, glob):
        self.func = func
        self.node = node
        self.glob = glob
        self.__name__ = func.__name__
        self.__doc__ = func.__doc__
        self.__module__ = func.__module__
        self.mergeable = node is not None and supported(node)
        self.py_func = func

    def __call__(self, *args, **kw):
        ENG.touched.add((self.func.__code__.co_filename.split('/metadetect/')[-1],
                         self.__name__))
        if not self.mergeable:
            return self.func(*args, **kw)
        return self._run(True, args, kw)

    def _run(self, guard, args, kw):
        g0 = guard
        ENG.touched.add((self.func.__code__.co_filename.split('/metadetect/')[-1],
                         self.__name__))
        if not self.mergeable:
            if guard is not True:
                # cannot be merged: fork on the guard
                if not ENG.decide(guard):
                    return None
            return self.func(*args, **kw)
        import inspect
        ba = inspect.signature(self.func).bind(*args, **kw)
        ba.apply_defaults()
        for a in ba.arguments.values():
            # masks are decided by forking
            if isinstance(a, nps.SymArray) and a.dtype == '?' and a.size:
                for p in nps.rnp.ndindex(*a.shape):
                    v = bterm(a._a[p])
                    if v is not True and v is not False:
                        if g0 is not True and not ENG.decide(g0):
                            return None
                        a._a[p] = ENG.decide(v)
        fr = Frame()
        fr.loc.update(ba.arguments)
        self.block(self.node.body, guard, fr, None)
        return None if fr.ret is _Missing else fr.ret

    # ---- statements
    def block(self, stmts, g, fr, loop):
        for s in stmts:
            gg = g
            if fr.returned is not False:
                gg = tand(gg, tnot(fr.returned))
            if loop is not None and (loop.brk is not False
                                     or loop.cont is not False):
                gg = tand(gg, tnot(loop.brk), tnot(loop.cont))
            if gg is False:
                return
            self.stmt(s, gg, fr, loop)

    def guarded(self, g, f):
        """evaluate f() with the guard on the stack"""
        if g is True:
            return f()
        ENG.guards.append(g)
        try:
            return f()
        finally:
            ENG.guards.pop()

    def stmt(self, s, g, fr, loop):
        if isinstance(s, ast.Assign):
            v = self.ev(s.value, g, fr)
            for t in s.targets:
                self.assign(t, v, g, fr)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.assign(s.target, self.ev(s.value, g, fr), g, fr)
        elif isinstance(s, ast.AugAssign):
            old = self.ev(_as_load(s.target), g, fr)
            rhs = self.ev(s.value, g, fr)
            v = self.guarded(g, lambda: self.binop(type(s.op), old, rhs))
            self.assign(s.target, v, g, fr)
        elif isinstance(s, ast.Expr):
            if not isinstance(s.value, ast.Constant):
                self.ev(s.value, g, fr)
        elif isinstance(s, ast.If):
            c = bterm(self.ev(s.test, g, fr))
            if c is True or c is False:
                self.block(s.body if c else s.orelse, g, fr, loop)
                return
            if tand(g, c) is not False:
                self.block(s.body, tand(g, c), fr, loop)
            if s.orelse:
                self.block(s.orelse, tand(g, tnot(c)), fr, loop)
        elif isinstance(s, ast.For):
            it = self.ev(s.iter, g, fr)
            lp = Loop()
            for x in it:
                lp.cont = False
                gg = tand(g, tnot(lp.brk), tnot(fr.returned))
                if gg is False:
                    break
                self.assign(s.target, x, gg, fr)
                self.block(s.body, gg, fr, lp)
        elif isinstance(s, ast.While):
            lp = Loop()
            n = 0
            gg = g
            while True:
                lp.cont = False
                gg = tand(gg, tnot(lp.brk), tnot(fr.returned))
                if gg is False:
                    break
                c = bterm(self.ev(s.test, gg, fr))
                gg = tand(gg, c)
                if gg is False:
                    break
                if gg is not True and ENG.implied(mkbool(tnot(gg))):
                    break
                n += 1
                if n > 200:
                    raise C.PathAbort('while loop bound')
                self.block(s.body, gg, fr, lp)
        elif isinstance(s, ast.Return):
            v = self.ev(s.value, g, fr) if s.value is not None else None
            if fr.ret is _Missing:
                fr.ret = v
            else:
                fr.ret = _merge(g, v, fr.ret)
            fr.returned = tor(fr.returned, g)
        elif isinstance(s, ast.Break):
            loop.brk = tor(loop.brk, g)
        elif isinstance(s, ast.Continue):
            loop.cont = tor(loop.cont, g)
        elif isinstance(s, ast.Raise):
            if g is True or ENG.decide(g):
                e = self.ev(s.exc, True, fr)
                raise e
        elif isinstance(s, ast.Assert):
            c = bterm(self.ev(s.test, g, fr))
            bad = tand(g, tnot(c))
            if bad is True or (bad is not False and ENG.decide(bad)):
                raise AssertionError()
        elif isinstance(s, ast.Pass):
            pass
        else:
            raise C.EngineLimit('kernel stmt %s' % type(s).__name__)

    def assign(self, t, v, g, fr):
        if isinstance(t, ast.Name):
            if g is True:
                fr.loc[t.id] = v
                return
            old = fr.loc.get(t.id, _Missing)
            if old is _Missing:
                old = Lazy([])
            elif not isinstance(old, Lazy):
                old = Lazy([(True, old)])
            fr.loc[t.id] = old.assigned(g, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = list(v)
            if len(vs) != len(t.elts):
                raise ValueError('unpack')
            for tt, vv in zip(t.elts, vs):
                self.assign(tt, vv, g, fr)
        elif isinstance(t, ast.Subscript):
            arr = self.ev(t.value, g, fr)
            idx = self.index(t.slice, g, fr)
            self.store(arr, idx, v, g)
        else:
            raise C.EngineLimit('kernel assign target')

    # ---- arrays
    def _norm(self, arr, idx):
        if not isinstance(idx, tuple):
            idx = (idx,)
        return idx

    def _symidx(self, arr, idx):
        return isinstance(arr, nps.SymArray) and len(idx) == arr.ndim and all(
            isinstance(i, (C.SInt, C.SBV)) or C.is_pyint(i) for i in idx)

    def _wrap(self, i, n, g):
        """numba wraparound; fork to IndexError if out of bounds"""
        if C.is_pyint(i):
            if i < -n or i >= n:
                if g is True or ENG.decide(g):
                    raise IndexError(
                        'kernel index %d out of bounds for size %d' % (i, n))
                return None
            return i % n if i < 0 else i
        oob = tand(g, tor(bterm(i < -n), bterm(i >= n)))
        if oob is not False and not ENG.implied(mkbool(tnot(oob))):
            if ENG.decide(oob):
                raise IndexError('kernel index out of bounds')
        if not ENG.implied(mkbool(tor(tnot(g), bterm(i >= 0)))):
            i = ite(i < 0, i + n, i)
        return i

    def load(self, arr, idx, g):
        if isinstance(arr, nps.SymArray):
            idx = self._norm(arr, idx)
            if self._symidx(arr, idx):
                ii = [self._wrap(i, n, g) for i, n in zip(idx, arr.shape)]
                if any(i is None for i in ii):
                    return arr._a.ravel()[0] if arr.size else 0
                if all(C.is_pyint(i) for i in ii):
                    return arr[tuple(ii)]
                out = None
                for pos in nps.rnp.ndindex(*arr.shape):
                    c = True
                    for i, p in zip(ii, pos):
                        c = tand(c, bterm(i == p))
                    if c is False:
                        continue
                    v = arr._a[pos]
                    out = v if out is None else ite(mkbool(c), v, out)
                return out
            if len(idx) == 1:
                idx = idx[0]
        return self.guarded(g, lambda: arr[idx])

    def store(self, arr, idx, v, g):
        if isinstance(arr, nps.SymArray):
            idx = self._norm(arr, idx)
            if self._symidx(arr, idx):
                ii = [self._wrap(i, n, g) for i, n in zip(idx, arr.shape)]
                if any(i is None for i in ii):
                    return
                v = nps.coerce(v, arr.dtype)
                if all(C.is_pyint(i) for i in ii):
                    p = tuple(int(i) for i in ii)
                    arr._a[p] = ite(mkbool(g), v, arr._a[p])
                    return
                for pos in nps.rnp.ndindex(*arr.shape):
                    c = g
                    for i, p in zip(ii, pos):
                        c = tand(c, bterm(i == p))
                    if c is False:
                        continue
                    arr._a[pos] = ite(mkbool(c), v, arr._a[pos])
                return
            if len(idx) == 1:
                idx = idx[0]
            if g is True:
                arr[idx] = v
            else:
                old = arr[idx]
                arr[idx] = nps.where(mkbool(g), v, old)
            return
        if g is not True:
            if not ENG.decide(g):
                return
        arr[idx] = v

    def index(self, s, g, fr):
        if isinstance(s, ast.Tuple):
            return tuple(self.index(e, g, fr) for e in s.elts)
        if isinstance(s, ast.Slice):
            return slice(*[self.ev(e, g, fr) if e is not None else None
                           for e in (s.lower, s.upper, s.step)])
        return self.ev(s, g, fr)

    # ---- expressions
    def ev(self, e, g, fr):
        if isinstance(e, ast.Constant):
            if isinstance(e.value, float):
                return C.rconst(e.value)
            return e.value
        if isinstance(e, ast.Name):
            if e.id in fr.loc:
                v = fr.loc[e.id]
                return v.read(g) if isinstance(v, Lazy) else v
            if e.id in self.glob:
                return self.glob[e.id]
            b = self.glob['__builtins__']
            b = b if isinstance(b, dict) else vars(b)
            if e.id in b:
                return b[e.id]
            raise NameError(e.id)
        if isinstance(e, ast.Attribute):
            return getattr(self.ev(e.value, g, fr), e.attr)
        if isinstance(e, ast.BinOp):
            a, b = self.ev(e.left, g, fr), self.ev(e.right, g, fr)
            return self.guarded(g, lambda: self.binop(type(e.op), a, b))
        if isinstance(e, ast.UnaryOp):
            v = self.ev(e.operand, g, fr)
            if isinstance(e.op, ast.Not):
                return C.Not(mkbool(bterm(v)))
            if isinstance(e.op, ast.USub):
                return -v
            if isinstance(e.op, ast.UAdd):
                return v
            return ~v
        if isinstance(e, ast.BoolOp):
            isand = isinstance(e.op, ast.And)
            acc = isand
            for x in e.values:
                gg = tand(g, acc if isand else tnot(acc))
                if gg is False:
                    break
                v = bterm(self.ev(x, gg, fr))
                acc = tand(acc, v) if isand else tor(acc, v)
                if acc is (not isand):
                    break
            return mkbool(acc)
        if isinstance(e, ast.Compare):
            left = self.ev(e.left, g, fr)
            out = True
            for op, r in zip(e.ops, e.comparators):
                right = self.ev(r, g, fr)
                if type(op) in _CMP:
                    if C.is_num(left) and C.is_num(right):
                        c = _CMP[type(op)](left, right)
                    else:
                        c = {ast.Lt: _op.lt, ast.LtE: _op.le, ast.Gt: _op.gt,
                             ast.GtE: _op.ge, ast.Eq: _op.eq,
                             ast.NotEq: _op.ne}[type(op)](left, right)
                        if isinstance(c, nps.SymArray):
                            return c
                elif isinstance(op, ast.Is):
                    c = left is right
                elif isinstance(op, ast.IsNot):
                    c = left is not right
                elif isinstance(op, ast.In):
                    c = left in right
                else:
                    c = left not in right
                out = tand(out, bterm(c))
                left = right
            return mkbool(out)
        if isinstance(e, ast.IfExp):
            c = bterm(self.ev(e.test, g, fr))
            if c is True or c is False:
                return self.ev(e.body if c else e.orelse, g, fr)
            return _merge(c, self.ev(e.body, tand(g, c), fr),
                          self.ev(e.orelse, tand(g, tnot(c)), fr))
        if isinstance(e, ast.Subscript):
            arr = self.ev(e.value, g, fr)
            return self.load(arr, self.index(e.slice, g, fr), g)
        if isinstance(e, ast.Tuple):
            return tuple(self.ev(x, g, fr) for x in e.elts)
        if isinstance(e, ast.List):
            return [self.ev(x, g, fr) for x in e.elts]
        if isinstance(e, ast.Call):
            f = self.ev(e.func, g, fr)
            args = []
            for a in e.args:
                if isinstance(a, ast.Starred):
                    args.extend(self.ev(a.value, g, fr))
                else:
                    args.append(self.ev(a, g, fr))
            kw = {}
            for k in e.keywords:
                if k.arg is None:
                    kw.update(self.ev(k.value, g, fr))
                else:
                    kw[k.arg] = self.ev(k.value, g, fr)
            if isinstance(f, Kernel):
                return f._run(g, args, kw)
            if g is True:
                return f(*args, **kw)
            try:
                return self.guarded(g, lambda: f(*args, **kw))
            except Exception:
                if ENG.decide(g):
                    raise
                return 0
        if isinstance(e, ast.JoinedStr):
            return '<str>'
        raise C.EngineLimit('kernel expr %s' % type(e).__name__)

    def binop(self, op, a, b):
        if C.is_num(a) and C.is_num(b):
            return _BIN[op](a, b)
        if op is ast.Mod and isinstance(a, str):
            return a
        return _PYBIN[op](a, b)


def _merge(g, new, old):
    if g is True:
        return new
    if isinstance(new, tuple) and isinstance(old, tuple) and len(
            new) == len(old):
        return tuple(_merge(g, a, b) for a, b in zip(new, old))
    if isinstance(new, nps.SymArray) and isinstance(old, nps.SymArray) and (
            new.shape != old.shape):
        return new if ENG.decide(g) else old
    if new is None or old is None:
        if new is None and old is None:
            return None
        return new if ENG.decide(g) else old
    return ite(mkbool(g), new, old)


def _as_load(t):
    import copy
    t = copy.copy(t)
    t.ctx = ast.Load()
    return t
