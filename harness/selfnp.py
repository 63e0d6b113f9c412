"""expressions to compare the stand-in for numpy with numpy (tools/selfnp.py)"""
EX = """np.hypot(a, b)
np.einsum('ij,ij->', a, b)
np.einsum('ij,j->i', a, b[0])
np.clip(a, 0, 1)
a.clip(0, None)
np.full(a.shape, 2.0)
np.full_like(a, np.inf)
np.count_nonzero(a > 0)
np.isin(m, [1, 2])
np.flatnonzero(a > 0)
np.nansum(a)
np.add.reduce(a, axis=0)
np.multiply(a, b, out=o)
np.divide(a, np.abs(b) + 1, out=o, where=b > 0)
np.add(a, b, where=b > 0, out=o)
np.sqrt(b, out=o, where=b > 0)
np.sum(a, where=b > 0, initial=3.0)
np.max(a, where=b > 0, initial=-9)
np.any(a > 0, where=b > 0)
np.all(a > 0, axis=0, where=b > 0)
np.mean(a, axis=1, keepdims=True)
a.sum(keepdims=True)
a.sum(axis=1, keepdims=True)
np.max(a, axis=0, keepdims=True)
np.diff(a, axis=0)
np.cumsum(a, axis=1)
a.cumsum()
a.ptp() if hasattr(a, 'ptp') else None
np.prod(a, axis=0)
np.interp(a, [0., 1., 2.], [0., 2., -1.])
a.flat[1]
a.flat[:2]
a.mean(axis=(0, 1))
a.max(axis=1)
a.min(axis=0)
a.argmin(axis=1)
a.take([1, 0])
a.prod()
a.std()
a.round()
a.clip(-1, 1)
a.repeat(2)
a.diagonal()
a.trace()
a.compress([True, False], axis=1)
a.searchsorted
a[0].sort()
a[0].argsort()
a.put([0], 1.0)
np.put(o, [1], 2.0)
a.transpose(1, 0)
a.__array__
a.sum(axis=(0, 1))
a.conj()
np.round(a, 2)
np.log(np.abs(a) + 1)
np.exp(a)
np.floor_divide(a, 2)
np.remainder(m, 4)
np.bitwise_xor(m, 3)
np.bitwise_count(m)
np.logical_and(a > 0, b > 0, out=o.astype(bool))
np.nanmax(a)
np.nanmin(a)
np.nanmean(a)
np.nanstd(a)
np.ones_like(a, dtype=bool)
np.zeros_like(a)
np.empty_like(a).shape
np.rot90(a, axes=(1, 0))
np.fliplr(a)
np.argmax(a > 0)
np.unpackbits
np.block([[a, b], [b, a]])
np.dstack([a, b])
np.r_[a[0], b[0]]
np.c_[a[0], b[0]]
np.where((a > 0) & (b > 0))[0].size
np.where(a > 0)[0].shape[0]
len(np.where(a > 0)[0])
np.ma.median(a)
np.sum([a, b], axis=0)
np.mean([a, b], axis=0)
np.maximum.reduce([a, b, o])
np.minimum(a, b).min()
np.float32(a[0, 0])
np.asarray(a, dtype='i4') if False else 0
np.hypot(a, b).sum()
np.isclose(a, b).any()
np.array_equiv(a, a)
np.testing.assert_array_equal(a, a)
np.setdiff1d([1, 2], [2])
np.intersect1d([1, 2], [2])
np.union1d([1, 2], [2])
np.in1d([1, 2], [2]) if hasattr(np, 'in1d') else 0
np.divmod(a, 2)
np.square(a, out=o)
np.sign(a) * b
np.tile(a, (2, 1))
np.resize(a, (1, 2))
np.rollaxis(a, 1)
np.isin(m, 3).sum()
np.divide(a, b, where=b > 0, out=np.zeros_like(a))
np.take(a, [0, 1], axis=1)
np.ravel(a)
a[:, np.newaxis].shape
a[None].shape
np.dot(a[0], b[0])
a[0] @ b[0]
np.average(a, weights=b)
np.average(a, axis=0, weights=np.array([1., 2.]))
np.sum(a, axis=0, where=b > 0)
a.sum(where=b > 0)
np.sum(a * (b > 0))
np.mean(a[b > 0])
np.median(a)
np.median(a[b > 0])
np.logical_or.reduce(a > 0)
np.logical_and.reduce([a > 0, b > 0])
np.bitwise_or.reduce(m, axis=None)
np.bitwise_or.reduce(m.ravel())
np.any(a > 0, axis=1)
np.all(a > 0)
(a > 0).any()
(a > 0).sum()
(a > 0) & (b > 0)
~(a > 0)
(a > 0).astype(int)
(a > 0) * 1.0
np.where(a > 0, a, b)
np.where(a > 0)
np.nonzero(a > 0)
np.argwhere(a > 0)
a.nonzero()
np.select([a > 0, b > 0], [a, b], 0.0)
np.choose((a > 0).astype(int), [a, b])
np.putmask(o, a > 0, b)
np.place(o, a > 0, [1.0])
np.copyto(o, b, where=a > 0)
np.rot90(a, 2)
np.flip(a, 0)
a[::-1, ::-1]
a.T
np.transpose(a)
np.concatenate([a, b])
np.stack([a, b])
np.hstack([a, b])
np.vstack((a, b))
np.column_stack([a[0], b[0]])
np.pad(a, 1)
np.pad(a, ((1, 0), (0, 1)), constant_values=2)
np.isfinite(a).all()
np.isnan(a).any()
np.nan_to_num(a)
np.square(a)
a ** 2
np.power(a, 2)
np.sqrt(np.abs(a))
np.maximum(a, b)
np.fmax(a, b)
a.max()
a.argmax()
np.unravel_index(np.argmax(a), a.shape)
np.argmin(a, axis=0)
np.argsort(a[0])
np.sort(a[0])
sorted(a[0])
np.lexsort((a[0], b[0]))
np.unique(m)
np.searchsorted(np.array([0., 1., 2.]), a[0, 0])
np.digitize(a[0], [0., 1.])
np.rint(a)
np.floor(a).astype(int)
np.round(a)
np.array_equal(a, b)
np.allclose(a, b)
np.isclose(a, b)
np.bitwise_and(m, 3)
m & 3
np.invert(m)
np.copy(a)
np.asarray(a)
np.ascontiguousarray(a)
np.array(a, copy=True)
np.array([x for x in a])
np.fromiter((x for x in a[0]), dtype='f8', count=2)
list(np.ndenumerate(a))
[x for x in np.nditer(a)]
a.flat[0]
a.ravel()[0]
a.tolist()
a.item(0)
np.meshgrid(np.arange(2), np.arange(2), indexing='ij')
np.mgrid[0:2, 0:2]
np.indices((2, 2))
np.ix_([0], [1])
a[np.ix_([0, 1], [1])]
np.cumsum(a)
np.prod(a)
np.diff(a)
np.trace(a)
np.linalg.inv(np.array([[1., 2.], [3., 5.]]))
np.linalg.norm(a[0])
np.outer(a[0], b[0])
np.inner(a[0], b[0])
np.vdot(a, b)
np.tensordot(a, b)
np.cross(a[0], b[0])
np.sign(a)
np.ptp(a)
np.atleast_1d(a[0, 0])
np.broadcast_to(a[0], (2, 2))
np.repeat(a, 2)
np.tile(a, 2)
np.zeros(2, dtype=[('x', 'f8')])['x']
np.float64(a[0, 0])
float(2.0)
np.add(a, b, out=o)
np.subtract.outer(a[0], b[0])
np.multiply.reduce(a)
np.maximum.reduce([a, b])
np.maximum.accumulate(a[0])
np.add.at(o, (np.array([0]), np.array([1])), 1.0)
np.negative(a)
np.reciprocal(np.abs(b) + 1)
np.logical_not(a > 0)
np.logical_xor(a > 0, b > 0)
np.errstate(divide='ignore')
np.ma.masked_where(a > 0, a)
np.apply_along_axis(lambda x: x.sum(), 1, a)
np.vectorize(lambda x: x + 1)(a)
np.array_split(a, 2)
np.split(a, 2)
np.moveaxis(a, 0, 1)
np.swapaxes(a, 0, 1)
np.expand_dims(a, 0)
np.squeeze(a[None])
np.compress([True, False], a, axis=0)
np.extract(a > 0, b)
np.delete(a, 0, axis=0)
np.insert(a[0], 0, 1.0)
np.append(a[0], b[0])
np.interp(a[0, 0], [0., 1.], [0., 2.])
np.percentile(a, 50)
np.quantile(a[0], 0.5)
np.nanmedian(a)
np.arctan2(a, b)
np.var(a)
np.std(a)
np.min(a, initial=0)
min(a[0])
sum(a[0])
a.any(axis=0)
a.mean(axis=0)
a.dot(b)
a.reshape(-1)
a.flatten()
a.copy()
a.fill(1.0)
a.swapaxes(0, 1)
a.astype('f4')
a.view()
a.size + a.ndim + len(a)
a.itemsize
np.result_type(a, b)
np.shares_memory(a, b)
np.bincount(np.array([0, 1]))
a[a > 0].size
a[(a > 0) & (b > 0)]
a[tuple([0, 1])]
np.s_[0:1]
np.mod(a, 2)
a // 2
divmod(a[0, 0], 2)
np.diagonal(a)
np.diag(a)
np.eye(2) * a
np.triu(a)
np.roll(a, 1)
np.fabs(a)
np.greater(a, b)
np.less_equal(a, 0)
np.equal(m, 0)
np.not_equal(m, 0)
np.left_shift(m, 1)
np.all(np.greater(a, 0))
np.any([x > 0 for x in a.ravel()])
any(x > 0 for x in a.ravel())
all(v != 0 for v in m.flat)
functools.reduce(np.bitwise_or, m.ravel(), 0)
functools.reduce(operator.or_, m.ravel())
math.sqrt(abs(a[0, 0]))
math.isnan(a[0, 0])
math.isfinite(a[0, 0])
math.floor(a[0, 0])
int(round(a[0, 0]))
abs(a[0, 0])
max(a[0, 0], b[0, 0])
f'{a[0, 0]}'
statistics.mean(a[0])
math.fsum(a[0])
math.hypot(a[0, 0], b[0, 0])
math.prod(a[0])
itertools.accumulate(a[0])
bool(a[0, 0] > 0)
not a[0, 0] > 0""".split('\n')


def one(env, k):
    import functools, operator, itertools, math, statistics
    np = env.np
    a = env.arr_real('a', (2, 2), -3, 3)
    b = env.arr_real('b', (2, 2), -3, 3)
    o = np.zeros((2, 2))
    m = env.arr_bv('m', (2, 2))
    r = eval(EX[k], dict(np=np, a=a, b=b, o=o, m=m, functools=functools,
         math=math, operator=operator, itertools=itertools,
         statistics=statistics))
    env.check('ran', True)
    try:
        ok = r is not None and all(True for _ in np.asarray(r).ravel())
    except Exception:
        ok = False
    if ok and hasattr(r, 'dtype'):
        env.observe('r', r)
    env.observe('o', o)
    env.observe('a', a)
