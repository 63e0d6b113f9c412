"""
A stand-in for numpy over symbolic values.

SymArray wraps a native object ndarray, so views and aliasing are those of
numpy.  Selections by a symbolic boolean mask are kept aligned with their mask
(MaskedSel) so that no fork is needed for the usual ``arr[msk] op= val``.
"""
import builtins as _builtins
import contextlib
import functools
import math
import sys

import numpy as rnp

from . import core as C
from .core import (
    ENG, SBool, SInt, SReal, SBV, And, Or, Not, ite, real, num, bterm,
    mkbool, is_sym, is_symbolic, EngineLimit,
)

pi = math.pi
nan = C.NAN
NaN = C.NAN
inf = C.PINF
e = math.e
newaxis = None
dtype = rnp.dtype
errstate = rnp.errstate
exceptions = rnp.exceptions
typing = None
version = rnp.version
__version__ = rnp.__version__
finfo = rnp.finfo
iinfo = rnp.iinfo
ndindex = rnp.ndindex
bool_ = rnp.bool_


def to_dtype(dt):
    if dt is None:
        return rnp.dtype('f8')
    if isinstance(dt, rnp.dtype):
        return dt
    c = getattr(dt, '_symx_dtype', None)
    if c is not None:
        return rnp.dtype(c)
    if isinstance(dt, list):
        return rnp.dtype([(d[0],) + ((getattr(d[1], '_symx_dtype', d[1]),)
                                     + tuple(d[2:])) for d in dt])
    return rnp.dtype(dt)


class _ScalarMeta(type):
    def __instancecheck__(cls, x):
        return cls._check(x)

    def __call__(cls, x=0):
        if isinstance(x, (SymArray, list, tuple)):
            return array(x, dtype=cls._symx_dtype)
        return coerce(x, rnp.dtype(cls._symx_dtype))


def _mkscalar(name, dt, kinds):
    def chk(x):
        if 'i' in kinds and isinstance(x, (SInt, SBV)):
            return True
        if 'f' in kinds and isinstance(x, SReal):
            return True
        if 'b' in kinds and isinstance(x, SBool):
            return True
        t = getattr(rnp, name)
        return isinstance(x, t)
    return _ScalarMeta(name, (), {'_symx_dtype': dt, '_check': staticmethod(chk)})


float64 = _mkscalar('float64', 'f8', 'f')
float32 = _mkscalar('float32', 'f4', 'f')
int64 = _mkscalar('int64', 'i8', 'i')
int32 = _mkscalar('int32', 'i4', 'i')
int16 = _mkscalar('int16', 'i2', 'i')
uint8 = _mkscalar('uint8', 'u1', '')
uint32 = _mkscalar('uint32', 'u4', '')
uint64 = _mkscalar('uint64', 'u8', '')
uint16 = _mkscalar('uint16', 'u2', '')
int8 = _mkscalar('int8', 'i1', '')
intp = int64
double = float64
integer = _mkscalar('integer', 'i8', 'i')
floating = _mkscalar('floating', 'f8', 'f')
number = _mkscalar('number', 'f8', 'if')


def coerce(v, dt):
    k = dt.kind
    if k == 'f':
        if isinstance(v, SReal):
            return v
        if isinstance(v, SymArray) and v.size == 1:
            return coerce(v._a.ravel()[0], dt)
        if isinstance(v, str):
            v = float(v)
        return real(v)
    if k in 'iu':
        if isinstance(v, SReal):
            return C.op_trunc_int(v)
        if isinstance(v, (SInt, SBV)):
            return v
        if isinstance(v, SBool):
            return v.as_int()
        if isinstance(v, SymArray) and v.size == 1:
            return coerce(v._a.ravel()[0], dt)
        if isinstance(v, float):
            return int(v)
        i = int(v)
        info = rnp.iinfo(dt)
        if i < info.min or i > info.max:
            raise OverflowError(
                'Python integer %d out of bounds for %s' % (i, dt))
        return i
    if k == 'b':
        if isinstance(v, (SInt, SReal, SBV)):
            return v.nonzero()
        if isinstance(v, SBool):
            return v
        if isinstance(v, SymArray) and v.size == 1:
            return coerce(v._a.ravel()[0], dt)
        return bool(v)
    if k in 'US':
        n = dt.itemsize // (4 if k == 'U' else 1)
        s = str(v)
        return s[:n] if n > 0 else s
    return v


def cast(v, dt):
    """astype semantics (ints wrap)"""
    if dt.kind in 'iu' and C.is_pyint(v):
        return int(rnp.array(int(v)).astype(dt)) if _builtins.abs(int(v)) < 2**63 else int(v)
    if dt.kind == 'i' and dt.itemsize == 4 and isinstance(v, SBV):
        t = C.z3.simplify(C.z3.SignExt(32, C.z3.Extract(31, 0, v.t)))
        return C.mkbv(t)
    return coerce(v, dt)


_coerce_cache = {}


def vcoerce(a, dt):
    out = rnp.empty(a.shape, dtype=object)
    fo, fi = out.ravel(), a.ravel()
    for i in range(fi.size):
        fo[i] = coerce(fi[i], dt)
    return fo.reshape(a.shape)


def default_for(dt):
    k = dt.kind
    if k == 'f':
        return C.rconst(0.0)
    if k in 'iu':
        return 0
    if k == 'b':
        return False
    if k in 'US':
        return ''
    return None


def raw(x):
    """-> object ndarray or scalar"""
    if isinstance(x, SymArray):
        return x._a
    return x


def _is_seq(x):
    return isinstance(x, (list, tuple, rnp.ndarray, range)) or (
        hasattr(x, '__iter__') and hasattr(x, '__len__')
        and not isinstance(x, (str, dict, set)) and not is_sym(x))


def infer_dtype(elems):
    kinds = set()
    f4 = False
    for x in elems:
        if isinstance(x, (SBool, bool, rnp.bool_)):
            kinds.add('b')
        elif isinstance(x, (SInt, SBV)) or C.is_pyint(x):
            kinds.add('i')
        elif isinstance(x, SReal) or C.is_pyfloat(x):
            kinds.add('f')
        elif isinstance(x, str):
            kinds.add('U')
        else:
            kinds.add('O')
    if 'O' in kinds:
        return rnp.dtype(object)
    if 'U' in kinds:
        n = _builtins.max([len(str(x)) for x in elems] + [1])
        return rnp.dtype('U%d' % n)
    if 'f' in kinds or not kinds:
        return rnp.dtype('f8')
    if 'i' in kinds:
        return rnp.dtype('i8')
    return rnp.dtype(bool)


def _wrapobj(a, dt):
    return SymArray(a, dt)


def from_native(a):
    """real ndarray -> SymArray (copy)"""
    if a.dtype.names:
        out = SymStruct.make(a.shape, a.dtype)
        for n in a.dtype.names:
            out.fields_[n]._a[...] = from_native(a[n])._a
        return out
    out = rnp.empty(a.shape, dtype=object)
    fo, fi = out.ravel(), a.ravel()
    for i in range(fi.size):
        v = fi[i]
        fo[i] = coerce(v.item() if hasattr(v, 'item') else v, a.dtype)
    return SymArray(fo.reshape(a.shape), a.dtype)


def array(x, dtype=None, copy=True, ndmin=0, order=None, subok=False):
    if isinstance(x, SymStruct):
        return x.copy() if copy else x
    if isinstance(x, MaskedSel):
        return x.copy() if dtype is None else x.astype(dtype)
    if isinstance(x, WhereComp):
        x = x.concretise()
    if isinstance(x, SymArray):
        if dtype is None:
            r = x.copy() if copy else x
        else:
            r = x.astype(dtype, copy=bool(copy))
    elif isinstance(x, rnp.ndarray):
        r = from_native(x)
        if dtype is not None:
            r = r.astype(dtype)
    elif _is_seq(x):
        x = list(x)
        dt = to_dtype(dtype) if dtype is not None else None
        if dt is not None and dt.names:
            out = SymStruct.make((len(x),), dt)
            for i, row in enumerate(x):
                for nme, v in zip(dt.names, row):
                    out[nme][i] = v
            return out
        if dt is not None and dt.kind == 'O' and not _builtins.any(_is_seq(i) for i in x):
            a = rnp.empty(len(x), dtype=object)
            for i, v in enumerate(x):
                a[i] = v
            return SymArray(a, dt)
        if _builtins.any(_is_seq(i) or isinstance(i, (SymArray, MaskedSel)) for i in x):
            subs = [array(i, dtype=dtype) for i in x]
            subs = [s.concretise() if isinstance(s, MaskedSel) else s
                    for s in subs]
            if len(set(s.shape for s in subs)) != 1:
                raise ValueError('inhomogeneous shape')
            if dt is None:
                dt = functools.reduce(promote, [s.dtype for s in subs])
            a = rnp.empty((len(subs),) + subs[0].shape, dtype=object)
            for i, s in enumerate(subs):
                a[i] = vcoerce(s._a, dt)
            r = SymArray(a, dt)
        else:
            if dt is None:
                dt = infer_dtype(x)
            a = rnp.empty(len(x), dtype=object)
            for i, v in enumerate(x):
                a[i] = coerce(v, dt)
            r = SymArray(a, dt)
    else:
        dt = to_dtype(dtype) if dtype is not None else infer_dtype([x])
        a = rnp.empty((), dtype=object)
        a[()] = coerce(x, dt)
        r = SymArray(a, dt)
    while r.ndim < ndmin:
        r = r[None]
    return r


def asarray(x, dtype=None, order=None):
    if isinstance(x, (SymArray, SymStruct, MaskedSel)) and (
            dtype is None or to_dtype(dtype) == x.dtype):
        return x
    return array(x, dtype=dtype)


asanyarray = asarray
ascontiguousarray = asarray
asfortranarray = asarray


def promote(d1, d2):
    if d1 == d2:
        return d1
    return rnp.result_type(d1, d2)


_weak = {}


def _opdt(x):
    """dtype for promotion, python scalars are weak"""
    if isinstance(x, (SymArray, MaskedSel)):
        return x.dtype
    if isinstance(x, (SBool, bool, rnp.bool_)):
        return rnp.dtype(bool)
    if isinstance(x, (rnp.generic,)):
        return x.dtype
    if isinstance(x, (SInt, SBV, int)):
        return 0
    return 0.0


def res_dtype(a, b, kind):
    if kind == 'cmp':
        return rnp.dtype(bool)
    da, db = _opdt(a), _opdt(b)
    if isinstance(da, (int, float)) and isinstance(db, (int, float)):
        dt = rnp.dtype('f8') if isinstance(da, float) or isinstance(
            db, float) else rnp.dtype('i8')
    else:
        try:
            dt = rnp.result_type(da, db)
        except TypeError:
            dt = rnp.dtype(object)
    if kind == 'div' and dt.kind in 'iub':
        dt = rnp.dtype('f8')
    if kind == 'bit' and dt.kind == 'f':
        raise TypeError("ufunc 'bitwise' not supported for the input types")
    return dt


def elementwise(f, *args, dt=None):
    """apply f over broadcast args, returning SymArray"""
    arrs = [raw(a) for a in args]
    if len(arrs) == 1:
        a = arrs[0]
        out = rnp.empty(a.shape, dtype=object)
        fo, fi = out.ravel(), a.ravel()
        for i in range(fi.size):
            fo[i] = f(fi[i])
        out = fo.reshape(a.shape)
    else:
        shp = rnp.broadcast_shapes(*[
            a.shape if isinstance(a, rnp.ndarray) else () for a in arrs])
        cols = []
        for a in arrs:
            if isinstance(a, rnp.ndarray):
                cols.append(rnp.broadcast_to(a, shp).ravel())
            else:
                cols.append(None)
        n = 1
        for s in shp:
            n *= s
        fo = rnp.empty(n, dtype=object)
        for i in range(n):
            fo[i] = f(*[c[i] if c is not None else a
                        for c, a in zip(cols, arrs)])
        out = fo.reshape(shp)
    if dt is None:
        dt = infer_dtype(list(out.ravel()))
    return SymArray(out, dt)


def _f32ok(x):
    return x


def binop(f, a, b, kind):
    """elementwise with MaskedSel support"""
    if isinstance(a, MaskedSel) or isinstance(b, MaskedSel):
        return MaskedSel.combine(lambda x, y: binop(f, x, y, kind), a, b)
    a, b = _conv(a), _conv(b)
    dt = res_dtype(a, b, kind)
    if dt.kind in 'fiu' and kind != 'cmp':
        def g(x, y):
            return coerce(f(x, y), dt)
    else:
        g = f
    return elementwise(g, a, b, dt=dt)


def _conv(x):
    if isinstance(x, (list, tuple)):
        return array(x)
    if isinstance(x, rnp.ndarray):
        return from_native(x)
    if isinstance(x, WhereComp):
        return x.concretise()
    return x


OPS = {
    'add': (C.op_add, 'num'), 'sub': (C.op_sub, 'num'),
    'mul': (C.op_mul, 'num'), 'truediv': (C.op_truediv, 'div'),
    'floordiv': (C.op_floordiv, 'num'), 'mod': (C.op_mod, 'num'),
    'pow': (C.op_pow, 'num'), 'and': (C.op_and, 'bit'),
    'or': (C.op_or, 'bit'), 'xor': (C.op_xor, 'bit'),
    'lshift': (C.op_lshift, 'bit'), 'rshift': (C.op_rshift, 'bit'),
    'lt': (C.op_lt, 'cmp'), 'le': (C.op_le, 'cmp'), 'gt': (C.op_gt, 'cmp'),
    'ge': (C.op_ge, 'cmp'), 'eq': (C.op_eq, 'cmp'), 'ne': (C.op_ne, 'cmp'),
}


class _OpsMixin:
    def _mk(name):
        f, kind = OPS[name]

        def fwd(self, o):
            if o is None or isinstance(o, str):
                if name == 'eq':
                    return elementwise(lambda x: x == o, self,
                                       dt=rnp.dtype(bool))
                if name == 'ne':
                    return elementwise(lambda x: x != o, self,
                                       dt=rnp.dtype(bool))
                return NotImplemented
            if isinstance(o, SymStruct):
                return NotImplemented
            return binop(f, self, o, kind)

        def rev(self, o):
            if o is None or isinstance(o, str):
                return NotImplemented
            return binop(f, o, self, kind)

        def inplace(self, o):
            if isinstance(self, MaskedSel):
                return fwd(self, o)
            r = fwd(self, o)
            if isinstance(r, MaskedSel):
                r = r.concretise()
            if r is NotImplemented:
                return r
            if not rnp.can_cast(r.dtype, self.dtype, 'same_kind'):
                raise TypeError(
                    'Cannot cast ufunc output from %s to %s' % (
                        r.dtype, self.dtype))
            if r.shape != self.shape:
                raise ValueError('non-broadcastable output operand')
            self[...] = r
            return self
        return fwd, rev, inplace

    for _n in OPS:
        _f, _r, _i = _mk(_n)
        locals()['__%s__' % _n] = _f
        if _n not in ('lt', 'le', 'gt', 'ge', 'eq', 'ne'):
            locals()['__r%s__' % _n] = _r
            locals()['__i%s__' % _n] = _i
    del _mk, _n, _f, _r, _i
    __hash__ = None

    def __neg__(self):
        return 0 - self

    def __pos__(self):
        return self

    def __abs__(self):
        return abs(self)

    def __invert__(self):
        if self.dtype.kind == 'b':
            return unary(Not, self, rnp.dtype(bool))
        return unary(lambda x: ~x, self, self.dtype)


def unary(f, x, dt=None):
    if isinstance(x, MaskedSel):
        return MaskedSel(unary(f, x.vals, dt), x.mask)
    return elementwise(f, x, dt=dt)


class _Flags:
    def __init__(self, arr):
        self._arr = arr

    @property
    def writeable(self):
        return self._arr._a.flags.writeable

    @writeable.setter
    def writeable(self, v):
        self._arr._a.flags.writeable = bool(v)

    def __getitem__(self, k):
        if k in ('WRITEABLE', 'W'):
            return self.writeable
        return True

    def __setitem__(self, k, v):
        self.writeable = v


def _allconc(a):
    for x in a.ravel():
        if isinstance(x, (SBool, SInt, SBV)):
            return False
    return True


def _index(idx):
    """convert an index expression for the native object array.  Returns
    ('native', idx) or ('mask', mask SymArray)"""
    if isinstance(idx, WhereIdx):
        return 'mask', idx.mask
    if isinstance(idx, WhereComp):
        if idx.mask.ndim == 1:
            return 'mask', idx.mask
        return 'native', tonative_int(idx.concretise())
    if isinstance(idx, SymArray):
        if idx.dtype.kind == 'b':
            if _allconc(idx._a):
                return 'native', idx._a.astype(bool)
            return 'mask', idx
        return 'native', tonative_int(idx)
    if isinstance(idx, MaskedSel):
        return 'native', tonative_int(idx.concretise())
    if isinstance(idx, SBool):
        return 'native', bool(idx)
    if isinstance(idx, (SInt, SBV)):
        return 'native', idx.__index__()
    if isinstance(idx, SReal):
        raise IndexError('only integers, slices (`:`), ellipsis (`...`), '
                         'numpy.newaxis (`None`) and integer or boolean '
                         'arrays are valid indices')
    if isinstance(idx, slice):
        return 'native', slice(*[_slc(v) for v in (
            idx.start, idx.stop, idx.step)])
    if isinstance(idx, tuple):
        if idx and _builtins.all(isinstance(i, WhereComp) for i in idx):
            m = idx[0].mask
            if _builtins.all(i.mask is m for i in idx) and [
                    i.axis for i in idx] == list(range(m.ndim)):
                return 'mask', m
        out = []
        for i in idx:
            k, v = _index(i)
            if k == 'mask':
                v = concretise_mask(v)
            out.append(v)
        return 'native', tuple(out)
    if isinstance(idx, list):
        return _index(array(idx)) if len(idx) else ('native', [])
    return 'native', idx


def _slc(v):
    if v is None:
        return None
    if isinstance(v, SReal):
        raise TypeError('slice indices must be integers or None')
    return v.__index__()


def tonative_int(a):
    if isinstance(a, SymArray):
        if a.dtype.kind not in 'iub':
            if a.size == 0:
                return rnp.zeros(a.shape, dtype='i8')
            raise IndexError('arrays used as indices must be of integer (or '
                             'boolean) type')
        out = rnp.zeros(a.shape, dtype='i8')
        fo, fi = out.ravel(), a._a.ravel()
        for i in range(fi.size):
            fo[i] = int(fi[i])
        return fo.reshape(a.shape)
    return a


def concretise_mask(m):
    """fork on every element of the mask"""
    out = rnp.zeros(m.shape, dtype=bool)
    fo, fi = out.ravel(), m._a.ravel()
    for i in range(fi.size):
        fo[i] = bool(fi[i])
    return fo.reshape(m.shape)


class SymArray(_OpsMixin):
    _is_symarray = True
    __array_ufunc__ = None
    __array_priority__ = 2000

    def __init__(self, a, dt):
        self._a = a
        self.dtype = dt

    # ---- structure
    @property
    def shape(self):
        return self._a.shape

    @shape.setter
    def shape(self, s):
        self._a.shape = s

    @property
    def ndim(self):
        return self._a.ndim

    @property
    def size(self):
        return self._a.size

    @property
    def T(self):
        return SymArray(self._a.T, self.dtype)

    @property
    def flags(self):
        return _Flags(self)

    @property
    def flat(self):
        return _Flat(self)

    @property
    def base(self):
        return self._a.base

    @property
    def itemsize(self):
        return self.dtype.itemsize

    @property
    def nbytes(self):
        return self.dtype.itemsize * self.size

    def setflags(self, write=None, **kw):
        if write is not None:
            self._a.flags.writeable = bool(write)

    def __len__(self):
        return len(self._a)

    def __iter__(self):
        for i in range(len(self._a)):
            yield self[i]

    def __contains__(self, v):
        return bool(any(self == v))

    def __bool__(self):
        if self.size == 1:
            return bool(self._a.ravel()[0])
        if self.size == 0:
            return False
        raise ValueError('The truth value of an array with more than one '
                         'element is ambiguous. Use a.any() or a.all()')

    def __index__(self):
        if self.size == 1 and self.dtype.kind in 'iu':
            return int(self._a.ravel()[0])
        raise TypeError('only integer scalar arrays can be converted to a '
                        'scalar index')

    def __float__(self):
        return float(self._a.ravel()[0])

    def item(self, *a):
        if a:
            return self._a.item(*a)
        if self.size != 1:
            raise ValueError('can only convert an array of size 1')
        return self._a.ravel()[0]

    def __getitem__(self, idx):
        if isinstance(idx, str):
            raise IndexError('only integers, slices... are valid indices')
        k, ix = _index(idx)
        if k == 'mask':
            return MaskedSel.select(self, ix)
        r = self._a[ix]
        if isinstance(r, rnp.ndarray):
            return SymArray(r, self.dtype)
        return r

    def __setitem__(self, idx, val):
        k, ix = _index(idx)
        if k == 'mask':
            m = _fit_mask(ix, self)
            if not self._a.flags.writeable:
                raise ValueError('assignment destination is read-only')
            if isinstance(val, MaskedSel):
                if val.mask is ix or _same_mask(val.mask, ix):
                    v = val.vals
                else:
                    v = None
            elif isinstance(val, (SymArray, list, tuple, rnp.ndarray)):
                val = _conv(val)
                if val.ndim == 0:
                    v = val
                elif val.size == 1:
                    v = val._a.ravel()[0]
                else:
                    v = None
            else:
                v = val
            if v is not None:
                b = elementwise(
                    lambda c, n, o: ite(c, coerce(n, self.dtype), o),
                    m, v, self, dt=self.dtype)
                self._a[...] = b._a
                return
            ix = concretise_mask(ix)
        if isinstance(val, (MaskedSel, WhereComp)):
            val = val.concretise()
        if isinstance(val, (list, tuple, rnp.ndarray)):
            val = _conv(val)
        if isinstance(val, SymArray):
            v = vcoerce(val._a, self.dtype)
            # avoid storing 0-d arrays as elements
            if v.ndim == 0:
                v = v[()]
                self._set_scalar(ix, v)
            else:
                self._a[ix] = v
        elif isinstance(val, SymStruct):
            raise TypeError('cannot assign struct')
        else:
            self._set_scalar(ix, coerce(val, self.dtype))

    def _set_scalar(self, ix, v):
        if isinstance(self._a[ix], rnp.ndarray):
            w = rnp.empty((), dtype=object)
            w[()] = v
            self._a[ix] = w
        else:
            self._a[ix] = v

    # ---- conversions
    def copy(self, order=None):
        return SymArray(self._a.copy(), self.dtype)

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()

    def astype(self, dt, copy=True):
        dt = to_dtype(dt)
        if dt == self.dtype:
            return self.copy() if copy else self
        return elementwise(lambda x: cast(x, dt), self, dt=dt)

    def view(self, *a, **k):
        if a or k:
            t = a[0] if a else None
            if t is ndarray or t is SymArray:
                return SymArray(self._a.view(), self.dtype)
            raise EngineLimit('view with dtype')
        return SymArray(self._a.view(), self.dtype)

    def tolist(self):
        return self._a.tolist()

    def reshape(self, *s, **kw):
        if len(s) == 1 and isinstance(s[0], (tuple, list)):
            s = tuple(s[0])
        return SymArray(self._a.reshape(tuple(int(i) for i in s)), self.dtype)

    def ravel(self, order=None):
        return SymArray(self._a.ravel(), self.dtype)

    def flatten(self, order=None):
        return SymArray(self._a.flatten(), self.dtype)

    def transpose(self, *a):
        return SymArray(self._a.transpose(*a), self.dtype)

    def squeeze(self, *a):
        return SymArray(self._a.squeeze(*a), self.dtype)

    def swapaxes(self, a, b):
        return SymArray(self._a.swapaxes(a, b), self.dtype)

    def fill(self, v):
        self[...] = v

    def byteswap(self, *a):
        return self

    def newbyteorder(self, *a):
        return self

    def __repr__(self):
        return 'SymArray(%r, %s)' % (self._a.tolist(), self.dtype)

    def __format__(self, spec):
        return 'array'

    def dot(self, o):
        return dot(self, o)

    def __matmul__(self, o):
        return dot(self, o)

    def __rmatmul__(self, o):
        return dot(o, self)

    def nonzero(self):
        return where(self != 0 if self.dtype.kind != 'b' else self)

    def take(self, i, axis=None, **k):
        return take(self, i, axis, **k)

    def diagonal(self, *a, **k):
        return diagonal(self, *a, **k)

    def trace(self):
        return sum(diagonal(self))

    def compress(self, c, axis=None):
        return compress(c, self, axis)

    def put(self, i, v):
        self.flat[i] = v

    def sort(self, axis=-1, **k):
        self[...] = sort(self)

    @property
    def real(self):
        return self

    def conj(self):
        return self

    def _red(name):
        def f(self, axis=None, **kw):
            return globals()[name](self, axis=axis, **kw)
        return f

    for _n in ('sum', 'mean', 'max', 'min', 'any', 'all', 'prod', 'argmax',
               'argmin', 'std', 'var', 'cumsum'):
        locals()[_n] = _red(_n)
    del _red, _n

    def clip(self, lo=None, hi=None, min=None, max=None, out=None):
        return clip(self, lo, hi, out=out, min=min, max=max)

    def round(self, *a):
        return rint(self)

    def argsort(self, *a, **k):
        return argsort(self)

    def searchsorted(self, v, side='left'):
        return searchsorted(self, v, side)

    def repeat(self, n, axis=None):
        return SymArray(self._a.repeat(int(n), axis), self.dtype)


class _NDMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (SymArray, SymStruct, MaskedSel))

    def __call__(cls, shape, dtype=None):
        return zeros(shape, dtype=dtype)


class ndarray(metaclass=_NDMeta):
    pass


def _fit_mask(m, arr):
    """broadcast the mask to the array for leading dims"""
    if m.shape == arr.shape:
        return m
    if m.shape != arr.shape[:m.ndim]:
        raise IndexError(
            'boolean index did not match indexed array; shape %s vs %s' % (
                m.shape, arr.shape))
    a = m._a.reshape(m.shape + (1,) * (arr.ndim - m.ndim))
    return SymArray(rnp.broadcast_to(a, arr.shape), m.dtype)


def _same_mask(m1, m2):
    if m1 is m2:
        return True
    if m1.shape != m2.shape:
        return False
    for x, y in zip(m1._a.ravel(), m2._a.ravel()):
        if isinstance(x, SBool) and isinstance(y, SBool):
            if x.t.get_id() != y.t.get_id():
                if not ENG.implied(x == y):
                    return False
        elif is_sym(x) or is_sym(y):
            return False
        elif x != y:
            return False
    return True


class WhereComp:
    """one component of np.where(mask)"""
    def __init__(self, mask, axis):
        self.mask = mask
        self.axis = axis
        self._c = None

    dtype = rnp.dtype('i8')
    ndim = 1

    @property
    def size(self):
        return sum(self.mask)

    @property
    def shape(self):
        return (self.size,)

    def concretise(self):
        if self._c is None:
            m = concretise_mask(self.mask)
            self._c = from_native(rnp.where(m)[self.axis])
        return self._c

    def __len__(self):
        return len(self.concretise())

    def __getitem__(self, i):
        return self.concretise()[i]

    def __iter__(self):
        return iter(self.concretise())

    def __getattr__(self, name):
        if name.startswith('_'):
            raise AttributeError(name)
        return getattr(self.concretise(), name)

    def _mk(n):
        def f(self, o):
            return getattr(self.concretise(), n)(o)
        return f
    for _n in ('add', 'radd', 'sub', 'rsub', 'mul', 'rmul', 'eq', 'ne', 'lt',
               'le', 'gt', 'ge', 'floordiv', 'mod', 'truediv'):
        locals()['__%s__' % _n] = _mk('__%s__' % _n)
    del _mk, _n
    __hash__ = None


class WhereIdx(tuple):
    def __new__(cls, mask):
        self = tuple.__new__(
            cls, [WhereComp(mask, i) for i in range(mask.ndim)])
        self.mask = mask
        return self


class MaskedSel(_OpsMixin):
    """values selected by a symbolic mask, kept aligned with it"""
    _is_symarray = True
    __array_ufunc__ = None

    def __init__(self, vals, mask):
        self.vals = vals
        self.mask = mask
        self.dtype = vals.dtype

    @classmethod
    def select(cls, arr, mask):
        if arr.shape != mask.shape:
            if mask.shape != arr.shape[:mask.ndim]:
                raise IndexError('boolean index did not match indexed array')
            return arr[concretise_mask(mask)]
        return cls(arr.copy(), mask)

    @classmethod
    def combine(cls, f, a, b):
        a = _conv(a)
        b = _conv(b)
        ma = a.mask if isinstance(a, cls) else None
        mb = b.mask if isinstance(b, cls) else None
        if ma is not None and mb is not None:
            if _same_mask(ma, mb):
                return cls(f(a.vals, b.vals), ma)
            return f(a.concretise(), b.concretise())
        m = ma if ma is not None else mb
        o = b if ma is not None else a
        if isinstance(o, SymArray) and o.ndim > 0 and o.size != 1:
            return f(a.concretise() if ma is not None else a,
                     b.concretise() if mb is not None else b)
        if isinstance(o, SymArray):
            o = o._a.ravel()[0]
        if ma is not None:
            return cls(f(a.vals, o), m)
        return cls(f(o, b.vals), m)

    def concretise(self):
        m = concretise_mask(self.mask)
        return SymArray(self.vals._a[m], self.dtype)

    @property
    def size(self):
        return sum(self.mask)

    @property
    def shape(self):
        return (self.size,)

    ndim = 1

    def copy(self):
        return MaskedSel(self.vals.copy(), self.mask)

    def astype(self, dt, copy=True):
        return MaskedSel(self.vals.astype(dt), self.mask)

    def __len__(self):
        n = self.size
        return n if isinstance(n, int) else n.__index__()

    def __iter__(self):
        return iter(self.concretise())

    def __getitem__(self, i):
        if isinstance(i, SymArray) and i.dtype.kind == 'b':
            pass
        if isinstance(i, MaskedSel) and i.dtype.kind == 'b' and _same_mask(
                i.mask, self.mask):
            m = binop(C.op_and, self.mask, i.vals, 'bit')
            return MaskedSel(self.vals, m)
        return self.concretise()[i]

    def __setitem__(self, i, v):
        raise EngineLimit('assignment into a masked selection copy')

    def __bool__(self):
        return bool(self.concretise())

    def ravel(self):
        return self

    flatten = ravel

    def sum(self, axis=None, **k):
        return sum(where(self.mask, self.vals, 0 * self.vals
                         if self.dtype.kind == 'f' else 0))

    def any(self, axis=None):
        return any(binop(C.op_and, self.mask, self.vals.astype(bool), 'bit'))

    def all(self, axis=None):
        return all(binop(C.op_or, ~self.mask, self.vals.astype(bool), 'bit'))

    def mean(self, axis=None):
        return C.op_truediv(self.sum(), self.size)

    def _ext(self, cmp):
        if bool(C.op_eq(self.size, 0)):
            raise ValueError('zero-size array to reduction operation')
        best, have = None, False
        for v, m in zip(self.vals._a.ravel(), self.mask._a.ravel()):
            if best is None:
                best, have = v, bterm(m)
                continue
            take = C.tand(bterm(m), C.tor(
                C.tnot(have), bterm(cmp(v, best))))
            best = ite(mkbool(take), v, best)
            have = C.tor(have, bterm(m))
        return best

    def max(self, axis=None):
        return self._ext(C.op_gt)

    def min(self, axis=None):
        return self._ext(C.op_lt)

    def __getattr__(self, name):
        if name.startswith('_'):
            raise AttributeError(name)
        return getattr(self.concretise(), name)


# --------------------------------------------------------------------------
# structured arrays
# --------------------------------------------------------------------------

class _Flat:
    """numbers in order, those of the array itself"""
    def __init__(self, x):
        self.x = x
        self.i = 0

    def __iter__(self):
        return iter(self.x._a.ravel())

    def __next__(self):
        if self.i >= self.x.size:
            raise StopIteration
        self.i += 1
        return self[self.i - 1]

    def __len__(self):
        return self.x.size

    def __getitem__(self, i):
        return self.x.ravel()[i]

    def __setitem__(self, i, v):
        if isinstance(i, (int, rnp.integer)):
            self.x[tuple(int(k) for k in rnp.unravel_index(
                i % self.x.size, self.x.shape))] = v
            return
        f = self.x.copy().ravel()
        f[i] = v
        self.x[...] = f.reshape(self.x.shape)


class SymRow:
    _is_symarray = True

    def __init__(self, st, i):
        self.st = st
        self.i = i
        self.dtype = st.dtype

    def __getitem__(self, n):
        if isinstance(n, str):
            return self.st[n][self.i]
        if isinstance(n, int):
            return self.st[self.dtype.names[n]][self.i]
        return SymRow(self.st[n], self.i)

    def __setitem__(self, n, v):
        if isinstance(n, int):
            n = self.dtype.names[n]
        self.st[n][self.i] = v

    def copy(self):
        s = self.st[self.i:self.i+1].copy()
        return SymRow(s, 0)

    def __len__(self):
        return len(self.dtype.names)


class SymStruct:
    _is_symarray = True
    __array_ufunc__ = None

    def __init__(self, fields, dt, shape):
        self.fields_ = fields
        self.dtype = dt
        self.shape = shape

    @classmethod
    def make(cls, shape, dt):
        f = {}
        for n in dt.names:
            sub = dt.fields[n][0]
            base, sshape = (sub.subdtype if sub.subdtype else (sub, ()))
            if base.names:
                raise EngineLimit('nested struct')
            f[n] = zeros(tuple(shape) + tuple(sshape), dtype=base)
        return cls(f, dt, tuple(shape))

    @property
    def size(self):
        n = 1
        for s in self.shape:
            n *= s
        return n

    @property
    def ndim(self):
        return len(self.shape)

    def __len__(self):
        if not self.shape:
            raise TypeError('len() of unsized object')
        return self.shape[0]

    def __iter__(self):
        for i in range(len(self)):
            yield self[i]

    def __getitem__(self, k):
        if isinstance(k, str):
            if k not in self.fields_:
                raise ValueError('no field of name %s' % k)
            return self.fields_[k]
        if isinstance(k, (list, tuple)) and k and isinstance(k[0], str):
            dt = rnp.dtype([(n, self.dtype.fields[n][0]) for n in k])
            return SymStruct({n: self.fields_[n] for n in k}, dt, self.shape)
        if isinstance(k, (SInt, SBV)):
            k = k.__index__()
        if C.is_pyint(k):
            n = self.shape[0]
            if k < -n or k >= n:
                raise IndexError('index out of bounds')
            return SymRow(self, int(k))
        kk, ix = _index(k)
        if kk == 'mask':
            ix = concretise_mask(ix)
        f = {n: SymArray(self.fields_[n]._a[ix], self.fields_[n].dtype)
             for n in self.fields_}
        d0 = rnp.empty(self.shape, dtype='i1')[ix]
        return SymStruct(f, self.dtype, d0.shape)

    def __setitem__(self, k, v):
        if isinstance(k, str):
            self.fields_[k][...] = v
            return
        kk, ix = _index(k)
        if isinstance(v, (SymStruct,)):
            if kk == 'mask':
                ix = concretise_mask(ix)
            for n, vn in zip(self.dtype.names, v.dtype.names):
                self.fields_[n][ix] = v.fields_[vn]
        elif isinstance(v, SymRow):
            for n, vn in zip(self.dtype.names, v.dtype.names):
                self.fields_[n][ix] = v[vn]
        else:
            for n in self.dtype.names:
                self.fields_[n][k] = v

    def copy(self):
        return SymStruct({n: v.copy() for n, v in self.fields_.items()},
                         self.dtype, self.shape)

    def __deepcopy__(self, memo):
        return self.copy()

    def view(self, *a):
        return self

    @property
    def flags(self):
        return _Flags(next(iter(self.fields_.values())))

    def sort(self, *a, **k):
        raise EngineLimit('sort struct')


# --------------------------------------------------------------------------
# functions
# --------------------------------------------------------------------------

def _shape(s):
    if isinstance(s, (SInt, SBV)):
        return (s.__index__(),)
    if C.is_pyint(s):
        return (int(s),)
    if isinstance(s, SReal):
        raise TypeError("'float' object cannot be interpreted as an integer")
    if isinstance(s, SymArray):
        s = list(s)
    return tuple(i.__index__() for i in s)


def full(shape, v, dtype=None, order=None):
    shape = _shape(shape)
    if dtype is None:
        dt = v.dtype if isinstance(v, SymArray) else infer_dtype([v])
    else:
        dt = to_dtype(dtype)
    if dt.names:
        return SymStruct.make(shape, dt)
    a = rnp.empty(shape, dtype=object)
    out = SymArray(a, dt)
    out[...] = v
    return out


def zeros(shape, dtype=None, order=None):
    dt = to_dtype(dtype)
    if dt.names:
        return SymStruct.make(_shape(shape), dt)
    return full(shape, default_for(dt), dtype=dt)


def ones(shape, dtype=None, order=None):
    return full(shape, 1, dtype=to_dtype(dtype))


empty = zeros


def full_like(x, v, dtype=None):
    x = asarray(x)
    return full(x.shape, v, dtype=dtype if dtype is not None else x.dtype)


def zeros_like(x, dtype=None):
    if isinstance(x, SymStruct):
        return SymStruct.make(x.shape, x.dtype)
    if isinstance(x, MaskedSel):
        return MaskedSel(zeros_like(x.vals, dtype), x.mask)
    if isinstance(x, WhereComp):
        x = x.concretise()
    x = asarray(x)
    return zeros(x.shape, dtype=dtype if dtype is not None else x.dtype)


def ones_like(x, dtype=None):
    if isinstance(x, MaskedSel):
        return MaskedSel(ones_like(x.vals, dtype), x.mask)
    x = asarray(x)
    return ones(x.shape, dtype=dtype if dtype is not None else x.dtype)


empty_like = zeros_like


def arange(*a, dtype=None):
    a = [x.__index__() if isinstance(x, (SInt, SBV)) else
         (float(x) if isinstance(x, SReal) else x) for x in a]
    r = from_native(rnp.arange(*a))
    return r.astype(dtype) if dtype is not None else r


def linspace(a, b, n=50, **k):
    a, b = real(a), real(b)
    n = int(n)
    return array([a + (b - a) * i / (n - 1) for i in range(n)], dtype='f8')


def eye(n, m=None, k=0, dtype=None):
    r = from_native(rnp.eye(int(n), None if m is None else int(m), k))
    return r.astype(dtype) if dtype is not None else r


identity = eye


def _wrap1(native):
    def f(x, *a, **k):
        if isinstance(x, SymStruct):
            raise EngineLimit('struct in %s' % native.__name__)
        if isinstance(x, MaskedSel):
            x = x.concretise()
        x = asarray(x)
        return SymArray(native(x._a, *a, **k), x.dtype)
    return f


def rot90(m, k=1, axes=(0, 1)):
    m = asarray(m)
    return SymArray(rnp.rot90(m._a, int(k), axes), m.dtype)


flipud = _wrap1(rnp.flipud)
fliplr = _wrap1(rnp.fliplr)
flip = _wrap1(rnp.flip)
transpose = _wrap1(rnp.transpose)
ravel = _wrap1(rnp.ravel)
squeeze = _wrap1(rnp.squeeze)
expand_dims = _wrap1(rnp.expand_dims)
tile = _wrap1(rnp.tile)
repeat = _wrap1(rnp.repeat)
roll = _wrap1(rnp.roll)
swapaxes = _wrap1(rnp.swapaxes)
moveaxis = _wrap1(rnp.moveaxis)
triu = _wrap1(rnp.triu)
diag = _wrap1(rnp.diag)


def reshape(x, s):
    return asarray(x).reshape(s)


def broadcast_to(x, s):
    x = asarray(x)
    return SymArray(rnp.broadcast_to(x._a, s), x.dtype)


def pad(x, w, mode='constant', constant_values=0, **k):
    x = asarray(x)
    r = rnp.pad(x._a, w, mode=mode, constant_values=constant_values)
    return SymArray(vcoerce(r, x.dtype), x.dtype)


def atleast_1d(*xs):
    out = []
    for x in xs:
        if not isinstance(x, (MaskedSel, SymStruct)):
            x = asarray(x)
            if x.ndim == 0:
                x = x.reshape(1)
        elif isinstance(x, SymStruct) and not x.shape:
            x = SymStruct({n: v.reshape(1, *v.shape) for n, v in
                           x.fields_.items()}, x.dtype, (1,))
        out.append(x)
    return out[0] if len(out) == 1 else tuple(out)


def atleast_2d(x):
    x = atleast_1d(x)
    return x if x.ndim >= 2 else x[None]


def _seq(xs):
    out = []
    for x in xs:
        if isinstance(x, (MaskedSel, WhereComp)):
            x = x.concretise()
        if not isinstance(x, SymStruct):
            x = asarray(x)
        out.append(x)
    return out


def concatenate(xs, axis=0, dtype=None):
    xs = _seq(xs)
    if not xs:
        raise ValueError('need at least one array to concatenate')
    if isinstance(xs[0], SymStruct):
        dt = xs[0].dtype
        for x in xs[1:]:
            if x.dtype != dt:
                dt = rnp.result_type(dt, x.dtype)
        f = {}
        for n in dt.names:
            f[n] = concatenate([x[n] for x in xs])
        return SymStruct(f, dt, (_builtin_sum(len(x) for x in xs),))
    dt = functools.reduce(promote, [x.dtype for x in xs])
    r = rnp.concatenate([x._a for x in xs], axis=axis)
    return SymArray(vcoerce(r, dt), dt)


import builtins  # noqa
_builtin_sum = builtins.sum
_builtin_any = builtins.any
_builtin_max = builtins.max
_builtin_all = builtins.all


def hstack(xs):
    xs = _seq(xs)
    if isinstance(xs[0], SymStruct):
        return concatenate(xs)
    xs = [atleast_1d(x) for x in xs]
    return concatenate(xs, axis=0 if xs[0].ndim == 1 else 1)


def vstack(xs):
    return concatenate([atleast_2d(x) for x in _seq(xs)], axis=0)


row_stack = vstack


def stack(xs, axis=0):
    xs = _seq(xs)
    dt = functools.reduce(promote, [x.dtype for x in xs])
    r = rnp.stack([x._a for x in xs], axis=axis)
    return SymArray(vcoerce(r, dt), dt)


def column_stack(xs):
    return stack(xs, axis=1)


def append(a, b, axis=None):
    return concatenate([asarray(a).ravel(), atleast_1d(b).ravel()])


def split(x, n, axis=0):
    return [SymArray(i, x.dtype) for i in rnp.split(x._a, n, axis)]


def where(c, a=None, b=None):
    if a is None and b is None:
        if isinstance(c, MaskedSel):
            c = c.concretise()
        c = asarray(c)
        if c.dtype.kind != 'b':
            c = c.astype(bool)
        if _allconc(c._a):
            return tuple(from_native(i) for i in
                         rnp.where(c._a.astype(bool)))
        if c.ndim == 0:
            c = c.reshape(1)
        return WhereIdx(c)
    if isinstance(c, (MaskedSel,)) or isinstance(a, MaskedSel) or isinstance(
            b, MaskedSel):
        ms = [x for x in (c, a, b) if isinstance(x, MaskedSel)]
        if _builtin_all(_same_mask(ms[0].mask, m.mask) for m in ms[1:]) and (
                _builtin_all(isinstance(x, MaskedSel) or C.is_num(x)
                             for x in (c, a, b))):
            vs = [x.vals if isinstance(x, MaskedSel) else x
                  for x in (c, a, b)]
            return MaskedSel(where(*vs), ms[0].mask)
        c, a, b = [x.concretise() if isinstance(x, MaskedSel) else x
                   for x in (c, a, b)]
    c, a, b = _conv(c), _conv(a), _conv(b)
    dt = res_dtype(a, b, 'num')
    r = elementwise(lambda cc, x, y: ite(
        cc if isinstance(cc, (bool, SBool)) else num(cc) != 0,
        coerce(x, dt), coerce(y, dt)), c, a, b, dt=dt)
    return r


_where = where


def nonzero(x):
    return where(x)


def flatnonzero(x):
    return where(asarray(x).ravel())[0]


def argwhere(x):
    return array(where(x)).T


def count_nonzero(x, axis=None):
    return sum(asarray(x).astype(bool), axis=axis)


def _scalar_or(x):
    if isinstance(x, SymArray) and x.ndim == 0:
        return x._a[()]
    return x


def _ufunc1(f, dtf=None):
    def g(x, out=None, where=None, dtype=None):
        if isinstance(x, (SymArray, MaskedSel, list, tuple, rnp.ndarray)):
            x = _conv(x)
            dt = dtf(x.dtype) if dtf else None
            r = unary(f, x, dt)
            if out is not None or where is not None:
                return _into(r, out, where)
            return _scalar_or(r)
        return f(x)
    return g


def _into(r, out, mask):
    """the out and where arguments of ufuncs"""
    if isinstance(out, tuple):
        out, = out
    if mask is not None and mask is not True:
        if out is None:
            raise EngineLimit('ufunc with where and without out')
        out[...] = where(_conv(mask), r, out)
    elif out is not None:
        out[...] = r
    else:
        return _scalar_or(r)
    return out


def _fdt(dt):
    return dt if dt.kind == 'f' else rnp.dtype('f8')


def _bdt(dt):
    return rnp.dtype(bool)


sqrt = _ufunc1(C.op_sqrt, _fdt)
exp = _ufunc1(C.op_exp, _fdt)
log = _ufunc1(lambda x: C.op_uf('log', x), _fdt)
log10 = _ufunc1(lambda x: C.op_uf('log10', x), _fdt)
sin = _ufunc1(lambda x: C.op_uf('sin', x), _fdt)
cos = _ufunc1(lambda x: C.op_uf('cos', x), _fdt)
tan = _ufunc1(lambda x: C.op_uf('tan', x), _fdt)
arctan = _ufunc1(lambda x: C.op_uf('atan', x), _fdt)
tanh = _ufunc1(lambda x: C.op_uf('tanh', x), _fdt)
arctanh = _ufunc1(lambda x: C.op_uf('atanh', x), _fdt)
floor = _ufunc1(C.op_floor, _fdt)
ceil = _ufunc1(C.op_ceil, _fdt)
rint = _ufunc1(C.op_rint, _fdt)
trunc = _ufunc1(C.op_trunc, _fdt)
fix = trunc
isnan = _ufunc1(C.op_isnan, _bdt)
isfinite = _ufunc1(C.op_isfinite, _bdt)
isinf = _ufunc1(C.op_isinf, _bdt)
abs = absolute = fabs = _ufunc1(C.op_abs, lambda d: d)
square = _ufunc1(lambda x: C.op_mul(x, x), lambda d: d)
negative = _ufunc1(lambda x: C.op_sub(0, x), lambda d: d)
invert = bitwise_not = _ufunc1(lambda x: ~x if is_sym(x) else ~x, lambda d: d)
sign = _ufunc1(lambda x: ite(C.op_gt(x, 0), 1, ite(C.op_lt(x, 0), -1, 0)),
               lambda d: d)
deg2rad = radians = _ufunc1(lambda x: x * (math.pi/180), _fdt)
rad2deg = degrees = _ufunc1(lambda x: x * (180/math.pi), _fdt)


def round(x, decimals=0):
    if decimals:
        raise EngineLimit('round decimals')
    return rint(x)


around = round


class _UF2:
    def __init__(self, f, kind, name, ident=None):
        self.f = f
        self.kind = kind
        self.__name__ = name
        self.ident = ident

    def __call__(self, a, b, out=None, where=None, dtype=None):
        if _builtin_any(isinstance(x, (SymArray, MaskedSel, list, tuple,
                                       rnp.ndarray)) for x in (a, b)):
            if self.kind == 'logical':
                a, b = [(asarray(x).astype(bool) if not isinstance(
                    x, MaskedSel) else x.astype(bool)) for x in (a, b)]
                r = binop(self.f, a, b, 'cmp')
            else:
                r = binop(self.f, a, b, self.kind)
            return _into(r, out, where)
        if out is not None or where is not None:
            return self(asarray(a), b, out, where)
        if self.kind == 'logical':
            return self.f(mkbool(bterm(a)), mkbool(bterm(b)))
        return self.f(a, b)

    def reduce(self, a, axis=0, dtype=None, out=None, keepdims=False,
               initial=None, where=None):
        if isinstance(a, MaskedSel):
            if self.ident is None:
                a = a.concretise()
            else:
                a = _where(a.mask, a.vals, self.ident)
                axis = None
        if where is not None and where is not True:
            if self.ident is None:
                raise EngineLimit('reduce with where')
            a = _where(_conv(where), _conv(a), self.ident)
        if out is not None or dtype is not None:
            raise EngineLimit('reduce with out or dtype')
        a = _conv(a)
        if self.kind == 'logical':
            a = a.astype(bool)
        r = _reduce(self.f, a, axis, self.ident, keepdims)
        return r if initial is None else self(r, initial)

    def accumulate(self, a, axis=0):
        a = asarray(a)
        m = rnp.moveaxis(a._a, axis, 0)
        rows = [SymArray(rnp.array([None, *m[i].ravel()], dtype=object)[1:],
                         a.dtype) if m.ndim > 1 else m[i]
                for i in range(m.shape[0])]
        for i in range(1, len(rows)):
            rows[i] = self(rows[i - 1], rows[i])
        if m.ndim == 1:
            return array(rows, dtype=a.dtype)
        r = stack([x.reshape(m.shape[1:]) for x in rows])
        return SymArray(rnp.moveaxis(r._a, 0, axis), r.dtype)

    def outer(self, a, b):
        a, b = asarray(a), asarray(b)
        return self(a.reshape(a.shape + (1,) * b.ndim), b)

    def at(self, a, idx, v):
        if isinstance(idx, tuple):
            idx = [asarray(i) for i in idx]
            n = _builtin_max(i.size for i in idx)
            for j in range(n):
                k = tuple(int(i.ravel()[j] if i.size > 1 else i.ravel()[0])
                          for i in idx)
                vv = v[j] if isinstance(v, (SymArray, list, tuple)) else v
                a[k] = self.f(a[k], vv)
            return
        idx = tonative_int(asarray(idx))
        for j, i in enumerate(idx):
            vv = v[j] if isinstance(v, (SymArray, list, tuple)) else v
            a[int(i)] = self.f(a[int(i)], vv)


add = _UF2(C.op_add, 'num', 'add', 0)
subtract = _UF2(C.op_sub, 'num', 'subtract')
multiply = _UF2(C.op_mul, 'num', 'multiply', 1)
divide = true_divide = _UF2(C.op_truediv, 'div', 'divide')
floor_divide = _UF2(C.op_floordiv, 'num', 'floor_divide')
mod = remainder = _UF2(C.op_mod, 'num', 'mod')
power = _UF2(C.op_pow, 'num', 'power')
minimum = fmin = _UF2(C.op_min, 'num', 'minimum')
maximum = fmax = _UF2(C.op_max, 'num', 'maximum')
bitwise_or = _UF2(C.op_or, 'bit', 'bitwise_or', 0)
bitwise_and = _UF2(C.op_and, 'bit', 'bitwise_and')
bitwise_xor = _UF2(C.op_xor, 'bit', 'bitwise_xor', 0)
left_shift = _UF2(C.op_lshift, 'bit', 'left_shift')
right_shift = _UF2(C.op_rshift, 'bit', 'right_shift')
logical_and = _UF2(And, 'logical', 'logical_and', True)
logical_or = _UF2(Or, 'logical', 'logical_or', False)
logical_xor = _UF2(C.op_xor, 'logical', 'logical_xor', False)
greater = _UF2(C.op_gt, 'cmp', 'greater')
greater_equal = _UF2(C.op_ge, 'cmp', 'greater_equal')
less = _UF2(C.op_lt, 'cmp', 'less')
less_equal = _UF2(C.op_le, 'cmp', 'less_equal')
equal = _UF2(C.op_eq, 'cmp', 'equal')
not_equal = _UF2(C.op_ne, 'cmp', 'not_equal')
hypot = _UF2(lambda a, b: C.op_sqrt(a*a + b*b), 'div', 'hypot')
arctan2 = _UF2(lambda a, b: C.op_uf('atan2', a, b), 'div', 'arctan2')


def logical_not(x):
    if isinstance(x, (SymArray, MaskedSel)):
        return ~x.astype(bool)
    return Not(mkbool(bterm(x)))


def _reduce(f, a, axis, ident, keepdims=False):
    if not isinstance(a, SymArray):
        a = asarray(a)
    if axis is None and keepdims:
        return array([_reduce(f, a, None, ident)]).reshape((1,) * a.ndim)
    if axis is None:
        vals = list(a._a.ravel())
        if not vals:
            if ident is None:
                raise ValueError('zero-size array to reduction operation')
            return coerce(ident, a.dtype) if a.dtype.kind == 'f' else ident
        out = vals[0]
        for v in vals[1:]:
            out = f(out, v)
        return out
    if isinstance(axis, tuple) and keepdims:
        r = a
        for ax in axis:
            r = asarray(_reduce(f, r, ax, ident, True))
        return r
    if isinstance(axis, tuple):
        r = a
        for ax in sorted([i % a.ndim for i in axis], reverse=True):
            r = asarray(_reduce(f, r, ax, ident))
        return _scalar_or(r)
    axis = int(axis) % a.ndim
    m = rnp.moveaxis(a._a, axis, 0)
    if keepdims and a.ndim == 1:
        return array([_reduce(f, a, None, ident)])
    if m.shape[0] == 0:
        return full(m.shape[1:], ident, dtype=a.dtype)
    out = SymArray(m[0].copy() if isinstance(m[0], rnp.ndarray)
                   else rnp.array(m[0], dtype=object), a.dtype)
    if not isinstance(m[0], rnp.ndarray):
        v = m[0]
        for i in range(1, m.shape[0]):
            v = f(v, m[i])
        return v
    for i in range(1, m.shape[0]):
        out = elementwise(f, out, SymArray(m[i], a.dtype))
    if keepdims:
        out = SymArray(rnp.expand_dims(out._a, axis), out.dtype)
    return _scalar_or(out)


def sum(x, axis=None, dtype=None, keepdims=False, **k):
    if isinstance(x, MaskedSel) and not k:
        return x.sum()
    if is_sym(x) or C.is_num(x):
        return num(x)
    x = _conv(x)
    if not isinstance(x, SymArray):
        x = array(list(x))
    if x.dtype.kind == 'b':
        x = x.astype('i8')
    if k:
        x, r = _kw(x, k, 0)
        if r is not None:
            return add(sum(x, axis, keepdims=keepdims), r)
    if axis is None and x.dtype.kind in 'f' and x.size > 3 and not keepdims:
        return _fsum(list(x._a.ravel()))
    return _reduce(C.op_add, x, axis, 0, keepdims)


def _fsum(vals):
    """flat sum: one n-ary z3 add"""
    vals = [real(v) for v in vals]
    if _builtin_all(v.plain and not v.d for v in vals):
        const = C.F0
        ts = []
        for v in vals:
            if isinstance(v.n, C.Fraction):
                const += v.n
            else:
                ts.append(v.n)
        if not ts:
            return SReal(const)
        if const != 0:
            ts.append(C.zr(const))
        return SReal(C.z3.Sum(ts) if len(ts) > 1 else ts[0])
    out = vals[0]
    for v in vals[1:]:
        out = C.op_add(out, v)
    return out


nansum_ = None


def nansum(x, axis=None, **k):
    x = asarray(x)
    return sum(where(isnan(x), 0.0, x), axis=axis, **k)


def prod(x, axis=None, keepdims=False, **k):
    x, r = _kw(asarray(x), k, 1)
    v = _reduce(C.op_mul, x, axis, 1, keepdims)
    return v if r is None else multiply(v, r)


def _kw(x, k, ident):
    """the where and initial arguments of reductions"""
    for n in k:
        if n not in ('where', 'initial', 'dtype') and k[n] is not None:
            raise EngineLimit('reduction with %s' % n)
    w = k.get('where')
    if w is not None and w is not True:
        if isinstance(x, MaskedSel):
            x = x.concretise()
        x = _where(_conv(w), x, ident)
    return x, k.get('initial')


def _count(x, axis):
    if axis is None:
        return x.size
    if isinstance(axis, tuple):
        n = 1
        for i in axis:
            n *= x.shape[i]
        return n
    return x.shape[axis]


def mean(x, axis=None, dtype=None, keepdims=False, where=None, **k):
    if k and _builtin_any(v is not None for v in k.values()):
        raise EngineLimit('mean with %s' % list(k))
    if isinstance(x, MaskedSel) and where is None:
        return x.mean()
    x = asarray(x)
    if where is not None and where is not True:
        m = _conv(where) & full(x.shape, True)
        return sum(x, axis=axis, keepdims=keepdims, where=m) / sum(
            m, axis=axis, keepdims=keepdims)
    return sum(x, axis=axis, keepdims=keepdims) / real(_count(x, axis))


def average(x, axis=None, weights=None, returned=False, keepdims=False):
    x = asarray(x)
    if weights is None:
        if returned:
            raise EngineLimit('average that returns weights')
        return mean(x, axis, keepdims=keepdims)
    w = asarray(weights)
    if w.shape != x.shape:
        if axis is None or w.ndim != 1:
            raise TypeError('Axis must be specified when shapes of a and '
                            'weights differ.')
        w = w.reshape((-1,) + (1,) * (x.ndim - 1 - axis % x.ndim))
        w = w + zeros(x.shape)
    n = sum(w, axis=axis, keepdims=keepdims)
    if bool(any(asarray(n) == 0)):
        raise ZeroDivisionError("Weights sum to zero, can't be normalized")
    r = sum(x * w, axis=axis, keepdims=keepdims) / n
    return (r, n) if returned else r


def var(x, axis=None, ddof=0, **k):
    if isinstance(x, MaskedSel):
        x = x.concretise()
    x = asarray(x)
    if axis is not None:
        raise EngineLimit('var axis')
    m = mean(x)
    return sum((x - m)**2) / real(x.size - ddof)


def std(x, axis=None, ddof=0, **k):
    return sqrt(var(x, axis, ddof))


def max(x, axis=None, keepdims=False, **k):
    if isinstance(x, MaskedSel) and not k:
        return x.max()
    if k.get('where') is not None and k.get('initial') is None:
        raise ValueError('reduction operation has no identity, so to use a '
                         'where mask one has to specify initial')
    x, r = _kw(_conv(x), k, k.get('initial'))
    if r is not None and asarray(x).size == 0 and axis is None:
        return r
    v = _reduce(C.op_max, x, axis, None, keepdims)
    return v if r is None else maximum(v, r)


def min(x, axis=None, keepdims=False, **k):
    if isinstance(x, MaskedSel) and not k:
        return x.min()
    if k.get('where') is not None and k.get('initial') is None:
        raise ValueError('reduction operation has no identity, so to use a '
                         'where mask one has to specify initial')
    x, r = _kw(_conv(x), k, k.get('initial'))
    if r is not None and asarray(x).size == 0 and axis is None:
        return r
    v = _reduce(C.op_min, x, axis, None, keepdims)
    return v if r is None else minimum(v, r)


amax, amin = max, min


def ptp(x, axis=None):
    return max(x, axis) - min(x, axis)


def any(x, axis=None, out=None, keepdims=False, where=None):
    if out is not None:
        raise EngineLimit('any with out')
    if isinstance(x, MaskedSel) and where is None:
        return x.any()
    if is_sym(x) or C.is_num(x):
        return mkbool(bterm(x))
    x = _conv(x)
    if not isinstance(x, SymArray):
        x = array(list(x))
    if where is not None and where is not True:
        x = x.astype(bool) & _conv(where)
    if axis is None and not keepdims:
        return mkbool(C.tor(*[bterm(v) for v in x._a.ravel()]))
    return _reduce(Or, x.astype(bool), axis, False, keepdims)


def all(x, axis=None, out=None, keepdims=False, where=None):
    if out is not None:
        raise EngineLimit('all with out')
    if isinstance(x, MaskedSel) and where is None:
        return x.all()
    if is_sym(x) or C.is_num(x):
        return mkbool(bterm(x))
    x = _conv(x)
    if not isinstance(x, SymArray):
        x = array(list(x))
    if where is not None and where is not True:
        x = x.astype(bool) | ~_conv(where)
    if axis is None and not keepdims:
        return mkbool(C.tand(*[bterm(v) for v in x._a.ravel()]))
    return _reduce(And, x.astype(bool), axis, True, keepdims)


def cumsum(x, axis=None, **k):
    x = asarray(x)
    if axis is not None and x.ndim > 1:
        return add.accumulate(x.astype('i8') if x.dtype.kind == 'b' else x,
                              axis)
    x = x.ravel()
    out = []
    acc = 0
    for v in x:
        acc = C.op_add(acc, v)
        out.append(acc)
    return array(out, dtype=x.dtype if x.dtype.kind != 'b' else 'i8')


def diff(x, n=1, axis=-1, **k):
    x = asarray(x)
    if n != 1 or k:
        raise EngineLimit('diff')
    a = SymArray(rnp.moveaxis(x._a, axis, 0), x.dtype)
    r = a[1:] - a[:-1]
    return SymArray(rnp.moveaxis(r._a, 0, axis), r.dtype)


def _sortnet(vals):
    vals = list(vals)
    n = len(vals)
    for i in range(n):
        for j in range(n - 1 - i):
            c = C.op_le(vals[j], vals[j+1])
            lo = ite(c, vals[j], vals[j+1])
            hi = ite(c, vals[j+1], vals[j])
            vals[j], vals[j+1] = lo, hi
    return vals


def _median_list(vals):
    vals = [real(v) for v in vals]
    n = len(vals)
    if n == 0:
        return C.NAN
    if n > ENG.median_exact and _builtin_any(is_symbolic(v) for v in vals):
        return _median_abs(vals)
    if _builtin_all(v.isconst for v in vals):
        if _builtin_any(v.nan for v in vals):
            return C.NAN
        s = sorted(vals, key=lambda v: (v.n if v.plain else
                                        (10**400 if v.pinf else -10**400)))
    else:
        s = _sortnet(vals)
    m = s[n//2] if n % 2 else (s[n//2 - 1] + s[n//2]) / 2
    nans = C.tor(*[v.nan for v in vals])
    return ite(mkbool(nans), C.NAN, m)


def _median_abs(vals):
    """median of many values: a fresh value between min and max, the same for
    the same terms"""
    key = ('median',) + tuple(sorted(
        (str(v.n) if isinstance(v.n, C.Fraction) else '#%d' % v.n.get_id(),
         tuple(t.get_id() for t in v.d),
         str([f if isinstance(f, bool) else f.get_id()
              for f in (v.nan, v.pinf, v.ninf)]))
        for v in vals))
    hit = ENG.memo.get(key)
    if hit is not None:
        return hit[0]
    ENG.stats.inc('median_abstracted')
    m = SReal(C.z3.Real(ENG.fresh_name('median')))
    fin = mkbool(C.tand(*[v.fin() for v in vals]))
    lo = functools.reduce(C.op_min, vals)
    hi = functools.reduce(C.op_max, vals)
    ENG.assume(C.Implies(fin, And(m >= lo, m <= hi)))
    nans = C.tor(*[v.nan for v in vals])
    r = ite(mkbool(nans), C.NAN, m)
    ENG.memo[key] = (r, vals)
    ENG.medians.append((m.n, vals))
    return r


def median(x, axis=None, **k):
    if isinstance(x, MaskedSel):
        mv = x.mask._a.ravel()
        vals = x.vals._a.ravel()
        if len(mv) > 7 or len(mv) > ENG.median_exact:
            return median(x.concretise())
        # sort with the unselected last
        items = [(v, bterm(m)) for v, m in zip(vals, mv)]
        n = len(items)
        for i in range(n):
            for j in range(n - 1 - i):
                (a, ma), (b, mb) = items[j], items[j+1]
                c = C.tor(C.tnot(mb), C.tand(ma, bterm(C.op_le(a, b))))
                cb = mkbool(c)
                items[j] = (ite(cb, a, b), C.bite(c, ma, mb))
                items[j+1] = (ite(cb, b, a), C.bite(c, mb, ma))
        cnt = x.size
        out = C.NAN
        for kk in range(1, n + 1):
            s = [it[0] for it in items[:kk]]
            m = s[kk//2] if kk % 2 else (s[kk//2 - 1] + s[kk//2]) / 2
            out = ite(C.op_eq(cnt, kk), m, out)
        return out
    x = _conv(x)
    if axis is None:
        return _median_list(list(x._a.ravel()))
    axis = axis % x.ndim
    m = rnp.moveaxis(x._a, axis, -1)
    out = rnp.empty(m.shape[:-1], dtype=object)
    for i in rnp.ndindex(*m.shape[:-1]):
        out[i] = _median_list(list(m[i]))
    return SymArray(out, rnp.dtype('f8'))


def nanmedian(x):
    x = asarray(x).ravel()
    return median(x[~isnan(x)])


def sort(x, axis=-1, **k):
    x = asarray(x)
    if x.ndim != 1:
        raise EngineLimit('sort nd')
    return SymArray(rnp.array(_sortnet(list(x._a)) + [None],
                              dtype=object)[:-1], x.dtype)


def argsort(x, **k):
    x = asarray(x)
    if x.ndim != 1:
        raise EngineLimit('argsort nd')

    def cmp(i, j):
        a, b = x._a[i], x._a[j]
        if bool(C.op_lt(a, b)):
            return -1
        return 1 if bool(C.op_lt(b, a)) else 0
    idx = sorted(range(x.size), key=functools.cmp_to_key(cmp))
    return array(idx, dtype='i8')


def _argext(x, cmp):
    v = list(_conv(x)._a.ravel())
    if not v:
        raise ValueError('attempt to get argmax of an empty sequence')
    best, bi = v[0], 0
    for i in range(1, len(v)):
        c = cmp(v[i], best)
        best = ite(c, v[i], best)
        bi = ite(c, i, bi)
    return bi


def argmax(x, axis=None, **k):
    if isinstance(x, MaskedSel):
        x = x.concretise()
    if axis is not None and asarray(x).ndim > 1:
        return _argaxis(asarray(x), axis, C.op_gt)
    x = asarray(x)
    return _argext(x.astype('i8') if x.dtype.kind == 'b' else x, C.op_gt)


def _argaxis(x, axis, op):
    m = rnp.moveaxis(x._a, axis, -1)
    out = rnp.empty(m.shape[:-1], dtype=object)
    for i in rnp.ndindex(*m.shape[:-1]):
        out[i] = _argext(SymArray(m[i], x.dtype), op)
    return SymArray(out, rnp.dtype('i8'))


def argmin(x, axis=None, **k):
    if isinstance(x, MaskedSel):
        x = x.concretise()
    if axis is not None and asarray(x).ndim > 1:
        return _argaxis(asarray(x), axis, C.op_lt)
    return _argext(x, C.op_lt)


def unique(x, return_index=False, return_inverse=False, return_counts=False,
           **k):
    if isinstance(x, (MaskedSel, WhereComp)):
        x = x.concretise()
    x = asarray(x)
    vals = []
    for v in x._a.ravel():
        if isinstance(v, (SInt, SBV)):
            v = v.__index__()
        elif isinstance(v, SBool):
            v = bool(v)
        elif isinstance(v, SReal):
            if not v.isconst:
                raise EngineLimit('unique of symbolic reals')
            v = v.const()
        vals.append(v)
    r = rnp.unique(rnp.array(vals, dtype=x.dtype), return_index=return_index,
                   return_inverse=return_inverse, return_counts=return_counts)
    if isinstance(r, tuple):
        return tuple(from_native(i) for i in r)
    return from_native(r)


def dot(a, b):
    a, b = _conv(a), _conv(b)
    if not isinstance(a, SymArray) or not isinstance(b, SymArray):
        return a * b
    if a.ndim == 0 or b.ndim == 0:
        return a * b
    if a.ndim == 1 and b.ndim == 1:
        if a.shape != b.shape:
            raise ValueError('shapes not aligned')
        return sum(a * b)
    A, B = a._a, b._a
    if A.shape[-1] != B.shape[0 if B.ndim == 1 else -2]:
        raise ValueError('shapes not aligned')
    dt = res_dtype(a, b, 'num')
    if a.ndim == 2 and b.ndim == 1:
        return array([sum(a[i] * b) for i in range(A.shape[0])], dtype=dt)
    if a.ndim == 1 and b.ndim == 2:
        return array([sum(a * b[:, j]) for j in range(B.shape[1])], dtype=dt)
    out = rnp.empty((A.shape[0], B.shape[1]), dtype=object)
    for i in range(A.shape[0]):
        for j in range(B.shape[1]):
            out[i, j] = _reduce(C.op_add, a[i] * b[:, j], None, 0)
    return SymArray(out, dt)


matmul = dot
inner = dot


def vdot(a, b):
    return dot(asarray(a).ravel(), asarray(b).ravel())


def outer(a, b):
    return multiply.outer(asarray(a).ravel(), asarray(b).ravel())


def trace(m):
    m = asarray(m)
    return sum(array([m[i, i] for i in range(m.shape[0])]))


def einsum(subs, *ops, **k):
    subs = subs.replace(' ', '')
    ops = [asarray(o) for o in ops]
    if '.' in subs or [n for n in k if n != 'optimize']:
        raise EngineLimit('einsum')
    ins, _, out = subs.partition('->')
    ins = ins.split(',')
    if '->' not in subs:
        out = ''.join(sorted(c for c in set(''.join(ins))
                             if ''.join(ins).count(c) == 1))
    dims = {}
    for t, o in zip(ins, ops):
        for c, n in zip(t, o.shape):
            if dims.setdefault(c, n) != n:
                raise ValueError('operands could not be broadcast together')
    inner_ = [c for c in dims if c not in out]
    dt = functools.reduce(promote, [o.dtype for o in ops])
    res = rnp.empty([dims[c] for c in out], dtype=object)
    for ix in rnp.ndindex(*res.shape):
        terms = []
        for jx in rnp.ndindex(*[dims[c] for c in inner_]):
            at = dict(zip(out, ix))
            at.update(zip(inner_, jx))
            v = 1
            for t, o in zip(ins, ops):
                v = C.op_mul(v, o._a[tuple(at[c] for c in t)])
            terms.append(v)
        res[ix] = functools.reduce(C.op_add, terms, 0)
    return _scalar_or(SymArray(vcoerce(res, dt), dt))


class linalg:
    class LinAlgError(ValueError):
        pass

    @staticmethod
    def det(m):
        m = asarray(m)
        n = m.shape[0]
        if n == 1:
            return m[0, 0]
        if n == 2:
            return m[0, 0]*m[1, 1] - m[0, 1]*m[1, 0]
        out = 0
        for j in range(n):
            rows = [[m[i, k] for k in range(n) if k != j] for i in range(1, n)]
            out = out + (-1)**j * m[0, j] * linalg.det(array(rows))
        return out

    @staticmethod
    def inv(m):
        m = asarray(m)
        n = m.shape[0]
        d = linalg.det(m)
        if not is_symbolic(d) and d == 0 or is_symbolic(d) and bool(d == 0):
            raise linalg.LinAlgError('Singular matrix')
        if n == 1:
            return array([[1 / d]])
        if n == 2:
            return array([[m[1, 1]/d, -m[0, 1]/d], [-m[1, 0]/d, m[0, 0]/d]],
                         dtype='f8')
        out = [[None]*n for _ in range(n)]
        for i in range(n):
            for j in range(n):
                rows = [[m[a, b] for b in range(n) if b != j]
                        for a in range(n) if a != i]
                out[j][i] = (-1)**(i+j) * linalg.det(array(rows)) / d
        return array(out, dtype='f8')

    @staticmethod
    def solve(a, b):
        return dot(linalg.inv(a), b)

    @staticmethod
    def norm(x):
        x = asarray(x).ravel()
        return sqrt(sum(x * x))

    @staticmethod
    def eigvals(m):
        raise EngineLimit('eigvals')

    eigh = eigvalsh = eig = eigvals


def unravel_index(idx, shape):
    if isinstance(idx, (MaskedSel, WhereComp)):
        idx = idx.concretise()
    if isinstance(idx, SymArray):
        out = []
        for n in reversed(shape[1:]):
            out.append(idx % n)
            idx = idx // n
        out.append(idx)
        return tuple(reversed(out))
    if isinstance(idx, (SInt, SBV)):
        out = []
        for n in reversed(shape[1:]):
            out.append(idx % n)
            idx = idx // n
        out.append(idx)
        return tuple(reversed(out))
    return tuple(int(i) for i in rnp.unravel_index(int(idx), shape))


def ravel_multi_index(mi, shape):
    out = asarray(mi[0]) * 0
    for i, n in zip(mi, shape):
        out = out * n + i
    return out


def clip(a, a_min=None, a_max=None, out=None, min=None, max=None):
    x = a
    lo = a_min if a_min is not None else min
    hi = a_max if a_max is not None else max

    def f(v):
        if lo is not None:
            v = C.op_max(v, lo)
        if hi is not None:
            v = C.op_min(v, hi)
        return v
    if isinstance(lo, SymArray) or isinstance(hi, SymArray):
        r = x
        if lo is not None:
            r = maximum(r, lo)
        if hi is not None:
            r = minimum(r, hi)
        if out is not None:
            out[...] = r
            return out
        return r
    if isinstance(x, (SymArray, MaskedSel, list, tuple)):
        x = _conv(x)
        r = unary(f, x, x.dtype)
        if out is not None:
            out[...] = r
            return out
        return r
    return f(x)


def isin(x, vals, invert=False, **k):
    vals = list(asarray(vals).ravel())

    def f(v):
        r = mkbool(C.tor(*[bterm(C.op_eq(v, w)) for w in vals]))
        return Not(r) if invert else r
    x = _conv(x)
    if isinstance(x, (SymArray, MaskedSel)):
        return unary(f, x, rnp.dtype(bool))
    return f(x)


in1d = isin


def array_equal(a, b, **k):
    a, b = asarray(a), asarray(b)
    if a.shape != b.shape:
        return False
    return all(a == b)


def isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    d = abs(asarray(a) - b)
    r = d <= (atol + rtol * abs(asarray(b)))
    if equal_nan:
        r = r | (isnan(asarray(a)) & isnan(asarray(b)))
    return _scalar_or(r)


def allclose(a, b, **k):
    return all(isclose(a, b, **k))


def digitize(x, bins, right=False):
    bins = list(asarray(bins))
    x = _conv(x)

    def f(v):
        n = 0
        for b in bins:
            n = n + ite(C.op_lt(b, v) if right else C.op_le(b, v), 1, 0)
        return n
    if isinstance(x, SymArray):
        return unary(f, x, rnp.dtype('i8'))
    return f(x)


def searchsorted(a, v, side='left'):
    return digitize(v, a, right=(side == 'left'))


def interp(x, xp, fp, left=None, right=None, period=None):
    if period is not None:
        raise EngineLimit('interp with period')
    xp, fp = asarray(xp), asarray(fp)
    lo = fp[0] if left is None else left
    hi = fp[-1] if right is None else right
    n = xp.size

    def f(v):
        r = fp[n - 1]
        for i in range(n - 2, -1, -1):
            t = C.op_add(fp[i], C.op_mul(
                C.op_truediv(C.op_sub(fp[i + 1], fp[i]),
                             C.op_sub(xp[i + 1], xp[i])),
                C.op_sub(v, xp[i])))
            r = ite(C.op_lt(v, xp[i + 1]), t, r)
        r = ite(C.op_lt(v, xp[0]), lo, r)
        return ite(C.op_gt(v, xp[n - 1]), hi, r)
    if isinstance(x, (SymArray, list, tuple, rnp.ndarray, MaskedSel)):
        return unary(f, _conv(x), rnp.dtype('f8'))
    return f(x)


def meshgrid(*xs, indexing='xy', **k):
    xs = [asarray(x) for x in xs]
    r = rnp.meshgrid(*[x._a for x in xs], indexing=indexing)
    return [SymArray(a, x.dtype) for a, x in zip(r, xs)]


def indices(shape, dtype=None):
    return from_native(rnp.indices(shape))


class _MGrid:
    def __getitem__(self, k):
        if isinstance(k, tuple):
            k = tuple(slice(*[_slc(v) for v in (s.start, s.stop, s.step)])
                      for s in k)
        else:
            k = slice(*[_slc(v) for v in (k.start, k.stop, k.step)])
        return from_native(rnp.mgrid[k])


mgrid = _MGrid()


class _OGrid:
    def __getitem__(self, k):
        r = rnp.ogrid[k]
        return [from_native(i) for i in r]


ogrid = _OGrid()


def isscalar(x):
    if is_sym(x):
        return True
    return rnp.isscalar(x)


def ndim(x):
    if isinstance(x, (SymArray, MaskedSel, SymStruct)):
        return x.ndim
    if is_sym(x) or C.is_num(x):
        return 0
    return asarray(x).ndim


def shape(x):
    return asarray(x).shape


def size(x):
    return asarray(x).size


def copy(x):
    return array(x)


def nan_to_num(x, **k):
    x = asarray(x)
    return where(isnan(x), 0.0, x)


def result_type(*a):
    return rnp.result_type(*[x.dtype if isinstance(x, SymArray) else x
                             for x in a])


def issubdtype(a, b):
    b = getattr(b, '__name__', b) if getattr(b, '_symx_dtype', None) else b
    if isinstance(b, str) and hasattr(rnp, b):
        b = getattr(rnp, b)
    return rnp.issubdtype(to_dtype(a), b)


def can_cast(*a, **k):
    return rnp.can_cast(*a, **k)


def ndenumerate(x):
    for i in rnp.ndindex(*x.shape):
        yield i, x[i]


def vectorize(f, **k):
    def g(*a):
        return elementwise(f, *[_conv(x) for x in a])
    return g


def apply_along_axis(f, axis, x, *a, **k):
    x = asarray(x)
    m = rnp.moveaxis(x._a, axis, -1)
    r = [f(SymArray(m[i], x.dtype), *a, **k)
         for i in rnp.ndindex(*m.shape[:-1])]
    if isinstance(r[0], SymArray):
        r = stack(r)
        return SymArray(rnp.moveaxis(
            r._a.reshape(m.shape[:-1] + r.shape[1:]), -1, axis), r.dtype)
    return array(r).reshape(m.shape[:-1])


def delete(x, idx, axis=None):
    x = asarray(x)
    idx = asarray(idx)
    i = idx._a.astype(bool) if idx.dtype.kind == 'b' and _allconc(
        idx._a) else tonative_int(idx)
    return SymArray(rnp.delete(x._a, i, axis), x.dtype)


def isreal(x):
    return True


def copyto(dst, src, casting=None, where=None):
    _into(asarray(src), dst, where)


def set_printoptions(**k):
    pass


class random:
    class RandomState:
        """every draw is an arbitrary value"""
        _n = 0

        def __init__(self, seed=None):
            self.seed = seed
            self.calls = []

        def _draw(self, kind, size, lo=None, hi=None):
            def one():
                v = SReal(C.z3.Real(ENG.fresh_name('rng_' + kind)))
                ENG.inputs[str(v.n)] = v
                if lo is not None:
                    ENG.assume(And(v >= lo, v < hi))
                return v
            self.calls.append((kind, size))
            if size is None:
                return one()
            shp = _shape(size)
            a = rnp.empty(shp, dtype=object)
            f = a.ravel()
            for i in range(f.size):
                f[i] = one()
            return SymArray(f.reshape(shp), rnp.dtype('f8'))

        def normal(self, loc=0.0, scale=1.0, size=None):
            return loc + scale * self._draw('normal', size)

        def standard_normal(self, size=None):
            return self._draw('normal', size)

        def randn(self, *s):
            return self._draw('normal', s if s else None)

        def uniform(self, low=0.0, high=1.0, size=None):
            u = self._draw('uniform', size, 0, 1)
            return low + (high - low) * u

        def random_sample(self, size=None):
            return self._draw('uniform', size, 0, 1)

        def rand(self, *s):
            return self._draw('uniform', s if s else None, 0, 1)

        def randint(self, low, high=None, size=None):
            if high is None:
                low, high = 0, low
            if size is not None:
                raise EngineLimit('randint size')
            v = SInt(C.z3.Int(ENG.fresh_name('rng_int')))
            ENG.inputs[str(v.t)] = v
            ENG.assume(And(v >= low, v < high))
            return v

        def choice(self, *a, **k):
            raise EngineLimit('rng.choice')

    @staticmethod
    def default_rng(seed=None):
        return random.RandomState(seed)

    @staticmethod
    def seed(*a):
        pass


def _arr(x):
    """as an array also if it is a selection"""
    if isinstance(x, (MaskedSel, WhereComp)):
        x = x.concretise()
    return asarray(x)


def take(x, idx, axis=None, out=None, mode='raise'):
    x = _arr(x)
    i = tonative_int(_arr(idx))
    if out is not None or mode != 'raise':
        raise EngineLimit('take')
    r = rnp.take(x._a, i, axis=axis)
    return _scalar_or(SymArray(r, x.dtype)) if isinstance(
        r, rnp.ndarray) else r


def select(conds, vals, default=0):
    r = default
    for c, v in zip(reversed(list(conds)), reversed(list(vals))):
        r = where(c, v, r)
    return r


def choose(idx, vals, out=None, mode='raise'):
    if out is not None or mode != 'raise':
        raise EngineLimit('choose')
    idx = _arr(idx)
    r = _arr(vals[-1])
    for i in range(len(vals) - 2, -1, -1):
        r = where(idx == i, vals[i], r)
    return r


def putmask(x, mask, v):
    v = _conv(v)
    if isinstance(v, SymArray) and v.ndim and v.shape != x.shape:
        if v.size != 1:
            raise EngineLimit('putmask that repeats values')
        v = v.ravel()[0]
    _into(_arr(v), x, mask)


def place(x, mask, v):
    v = _arr(v)
    if v.size != 1:
        raise EngineLimit('place of several values')
    _into(_arr(v.ravel()[0]), x, mask)


def extract(c, x):
    return _arr(x).ravel()[_arr(c).ravel().astype(bool)]


def compress(c, x, axis=None):
    x = _arr(x)
    i = flatnonzero(c)
    return take(x, i.concretise() if isinstance(i, WhereComp) else i, axis)


def lexsort(keys, axis=-1):
    keys = [_arr(k) for k in keys]

    def cmp(i, j):
        for k in reversed(keys):
            a, b = k._a[i], k._a[j]
            if bool(C.op_lt(a, b)):
                return -1
            if bool(C.op_lt(b, a)):
                return 1
        return 0
    return array(sorted(range(keys[0].size), key=functools.cmp_to_key(cmp)),
                 dtype='i8')


def fromiter(it, dtype=None, count=-1):
    v = list(it)
    return array(v if count < 0 else v[:count], dtype=dtype)


def nditer(x, *a, **k):
    if a or k:
        raise EngineLimit('nditer')
    return iter(_arr(x)._a.ravel())


def ix_(*xs):
    return rnp.ix_(*[rnp.flatnonzero(tonative_int(_arr(x)))
                     if _arr(x).dtype.kind == 'b'
                     else tonative_int(_arr(x)) for x in xs])


def tensordot(a, b, axes=2):
    a, b = _arr(a), _arr(b)
    if isinstance(axes, int):
        ia = list(range(a.ndim - axes, a.ndim))
        ib = list(range(axes))
    else:
        ia, ib = [[i] if isinstance(i, int) else list(i) for i in axes]
    la = 'abcdefghijkl'[:a.ndim]
    lb = list('mnopqrstuvwx'[:b.ndim])
    for i, j in zip(ia, ib):
        lb[j % b.ndim] = la[i % a.ndim]
    out = [c for c in la if c not in lb] + [c for c in lb if c not in la]
    return einsum('%s,%s->%s' % (la, ''.join(lb), ''.join(out)), a, b)


def reciprocal(x, **k):
    return divide(1.0, _arr(x), **k)


def array_split(x, n, axis=0):
    x = _arr(x)
    return [SymArray(i, x.dtype) for i in rnp.array_split(x._a, n, axis)]


def insert(x, idx, v, axis=None):
    x = _arr(x)
    v = _arr(v)
    return SymArray(vcoerce(rnp.insert(
        x._a, int(idx), v._a if v.ndim else v._a[()], axis), x.dtype),
        x.dtype)


def diagonal(x, offset=0, axis1=0, axis2=1):
    x = _arr(x)
    return SymArray(rnp.diagonal(x._a, offset, axis1, axis2).copy(), x.dtype)


def shares_memory(a, b, **k):
    a, b = [getattr(x, '_a', x) for x in (a, b)]
    return bool(rnp.shares_memory(a, b)) if a.dtype != object else (
        rnp.may_share_memory(a, b))


may_share_memory = shares_memory


def quantile(x, q, axis=None, **k):
    if C.is_num(q) and q == 0.5:
        return median(x, axis, **k)
    if k or axis is not None or not C.is_num(q):
        raise EngineLimit('quantile')
    v = sort(_arr(x).ravel())
    p = float(q) * (v.size - 1)
    i = int(math.floor(p))
    if i + 1 >= v.size:
        return v[v.size - 1]
    return C.op_add(v[i], C.op_mul(p - i, C.op_sub(v[i + 1], v[i])))


def percentile(x, q, axis=None, **k):
    return quantile(x, q / 100, axis, **k)


class _Cols:
    def __getitem__(self, xs):
        xs = xs if isinstance(xs, tuple) else (xs,)
        if _builtin_any(isinstance(x, (str, slice)) for x in xs):
            raise EngineLimit('c_')
        xs = [atleast_1d(x) for x in xs]
        if _builtin_all(x.ndim == 1 for x in xs):
            return stack(xs, axis=1)
        return concatenate([x.reshape(x.shape + (1,)) if x.ndim == 1 else x
                            for x in xs], axis=-1)


c_ = _Cols()


def put(x, i, v):
    x.flat[i] = v


def nanmax(x, axis=None, **k):
    x = _arr(x)
    if bool(any(all(isnan(x), axis=axis))):
        raise EngineLimit('nanmax of nothing')
    return max(where(isnan(x), C.NINF, x), axis, **k)


def nanmin(x, axis=None, **k):
    x = _arr(x)
    if bool(any(all(isnan(x), axis=axis))):
        raise EngineLimit('nanmin of nothing')
    return min(where(isnan(x), C.PINF, x), axis, **k)


def nanmean(x, axis=None, **k):
    x = _arr(x)
    return mean(x, axis, where=~isnan(x), **k)


def dstack(xs):
    return stack(xs, axis=-1)


def block(xs):
    if not isinstance(xs[0], (list, tuple)):
        return hstack(xs)
    return vstack([hstack(x) for x in xs])


def array_equiv(a, b):
    return all(_arr(a) == _arr(b))


def divmod(a, b):
    return floor_divide(a, b), remainder(a, b)


def rollaxis(x, axis, start=0):
    return SymArray(rnp.rollaxis(x._a, axis, start), x.dtype)


def _sets(name):
    def f(*a, **k):
        a = [_arr(x) for x in a]
        if not _builtin_all(_allconc(x._a) for x in a):
            raise EngineLimit(name)
        return from_native(getattr(rnp, name)(*[
            rnp.array(x._a.tolist(), dtype=x.dtype) for x in a], **k))
    return f


setdiff1d, intersect1d, union1d = map(_sets, (
    'setdiff1d', 'intersect1d', 'union1d'))


def bincount(x, weights=None, minlength=0):
    i = tonative_int(_arr(x))
    n = _builtin_max(int(i.max()) + 1 if i.size else 0, minlength)
    out = [0] * n
    for j, k in enumerate(i):
        out[k] = C.op_add(out[k], 1 if weights is None
                          else _arr(weights)._a.ravel()[j])
    return array(out, dtype='i8' if weights is None else 'f8')


def __getattr__(name):
    if name.startswith('__'):
        raise AttributeError(name)
    if hasattr(rnp, name):
        native = getattr(rnp, name)
        if not callable(native):
            return native

        def f(*a, **k):
            ENG.note_concretise('np.%s' % name)
            raise EngineLimit('numpy function without symbolic model: np.%s'
                              % name)
        return f
    raise AttributeError('numpy has no attribute %r' % name)


# builtins shadowed above must not be used by this module through globals
