"""helpers shared by the harnesses"""


def make_obs(env, name, dims, bmask=True, mfrac=False, noise=True, psf=None,
             weight=None, ormask=False, jac=None, store=True, wmin=0):
    """an observation with arbitrary pixel values (weights >= 0, some > 0)"""
    ngmix = env.mod('ngmix')
    np = env.np
    kw = {}
    im = env.arr_real(name + '_im', dims, -1000, 1000)
    if weight is None:
        w = env.arr_real(name + '_w', dims, wmin, 1000)
        env.assume(env.Or(*[w[i, j] > 0 for i in range(dims[0])
                            for j in range(dims[1])]))
    else:
        w = weight
    if bmask:
        kw['bmask'] = env.arr_bv(name + '_bm', dims)
    if ormask:
        kw['ormask'] = env.arr_bv(name + '_om', dims)
    if noise:
        kw['noise'] = env.arr_real(name + '_no', dims, -1000, 1000)
    if mfrac:
        kw['mfrac'] = env.arr_real(name + '_mf', dims, 0, 1)
    if jac is None:
        jac = ngmix.DiagonalJacobian(
            row=(dims[0] - 1) / 2, col=(dims[1] - 1) / 2, scale=0.25)
    o = ngmix.Observation(im, weight=w, jacobian=jac, psf=psf, **kw)
    return o


def make_mbobs(env, dims, nband=1, nepoch=1, name='b', **kw):
    ngmix = env.mod('ngmix')
    mb = ngmix.MultiBandObsList()
    for b in range(nband):
        ol = ngmix.ObsList()
        ne = nepoch[b] if isinstance(nepoch, (list, tuple)) else nepoch
        for e in range(ne):
            ol.append(make_obs(env, '%s%d%d' % (name, b, e), dims, **kw))
        mb.append(ol)
    return mb


PLANES = ('image', 'weight', 'bmask', 'ormask', 'noise', 'mfrac')


def snap(o):
    """copies of the planes of an observation"""
    d = {}
    for k in PLANES:
        if k in ('image', 'weight') or getattr(o, 'has_' + k)():
            d[k] = getattr(o, k).copy()
    return d


def pixels(dims):
    return [(i, j) for i in range(dims[0]) for j in range(dims[1])]


def stub_interp(env):
    """replace the scattered data interpolant by a deterministic one: a
    weighted average of all given points with weights 1/(1+d^2)"""
    np = env.np

    class Interp:
        ncalls = 0

        def __init__(self, points, values, fill_value=None, **k):
            self.p, self.v = points, values

        def __call__(self, q):
            Interp.ncalls += 1
            out = np.zeros(q.shape[0])
            for i in range(q.shape[0]):
                out[i] = avg(
                    [((int(self.p[k, 0]), int(self.p[k, 1])), self.v[k])
                     for k in range(self.p.shape[0])],
                    int(q[i, 0]), int(q[i, 1]))
            return out
    env.patch('scipy.interpolate', 'CloughTocher2DInterpolator', Interp)
    m = env.mod('metadetect.interpolate')
    if hasattr(m, 'CloughTocher2DInterpolator'):
        env.patch('metadetect.interpolate', 'CloughTocher2DInterpolator',
                  Interp)
    return Interp


def avg(pts, r, c):
    """the stub interpolant: pts is a list of ((row, col), value)"""
    s, w = 0, 0
    for (pr, pc), v in pts:
        k = 1 + (pr - r) ** 2 + (pc - c) ** 2
        # common denominator free form keeps the terms linear
        s = s + v * (5040 / k)
        w = w + 5040 / k
    return s / w


def expected_interp(env, image, bad, buff, iso=(), vals=None):
    """what the documented interpolation gives with the stub interpolant"""
    nr, nc = len(bad), len(bad[0])
    good = set()
    for i in range(nr):
        for j in range(nc):
            if bad[i][j] and (i, j) not in iso:
                for k in range(nr):
                    for l in range(nc):
                        if abs(k - i) <= buff and abs(l - j) <= buff and (
                                not bad[k][l] or (k, l) in iso):
                            good.add((k, l))
    pts = [(g, vals[g] if g in iso else image[g]) for g in sorted(good)]
    return {(i, j): avg(pts, i, j) for i in range(nr) for j in range(nc)
            if bad[i][j] and (i, j) not in iso}


def isolated(bad, iso_buff):
    nr, nc = len(bad), len(bad[0])
    out = []
    for i in range(nr):
        for j in range(nc):
            if bad[i][j] and all(
                    bad[k][l] for k in range(nr) for l in range(nc)
                    if abs(k - i) <= iso_buff and abs(l - j) <= iso_buff):
                out.append((i, j))
    return out


def check_fill(env, label, got, draws, scale):
    """the filled values are distinct draws times scale, in any order"""
    env.check(label + ' count', len(draws) >= len(got))
    for g in got:
        env.check(label, env.Or(*[env.close(g, d * scale) for d in draws]))
    for i in range(len(got)):
        for j in range(i):
            # two pixels share a value only if two draws do
            env.check(label + ' independent', env.Implies(
                env.And(*[env.Not(env.close(draws[a], draws[b]))
                          for a in range(len(draws)) for b in range(a)]),
                env.Not(env.close(got[i], got[j]))))
