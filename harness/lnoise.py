"""replacement of sources by noise (metadetect/lsst/util.py)"""
from .common import pixels
from .lcommon import L, snap
from .lmcal import BANDS


class _Amp:
    def __init__(self, g):
        self.g = g

    def getGain(self):
        return self.g


class _Detector:
    def __init__(self, gains):
        self.amps = [_Amp(g) for g in gains]

    def getAmplifiers(self):
        return self.amps

    def __iter__(self):
        return iter(self.amps)


def image(env, dims, gains=None, bad=(), med=4, xy0=(0, 0)):
    """the image of noise.  bad: [row, col, plane] pixels that can have
    any value, also nan and infinite"""
    l = L(env)
    np = env.np
    ut = env.mod('metadetect.lsst.util')
    env.median_limit(med)
    im = env.arr_real('im', dims, 0, 100)
    va = env.arr_real('va', dims, 500, 1000)
    for i, j, what in bad:
        x = env.xreal('x%d%d%s' % (i, j, what))
        (im if what == 'i' else va)[i, j] = x
        env.assume(env.Or(env.Not(np.isfinite(x)),
                          env.And(x >= 0, x <= 100) if what == 'i' else
                          env.And(x >= 500, x <= 1000)))
    ma = env.arr_bv('ma', dims)
    e = l.exposure(dims, xy0, im, va, ma, l.affine())
    g = None
    if gains is not None:
        g = [env.real('gain%d' % k, 1 / 2, 4) for k in range(gains)]
        e.setDetector(_Detector(g))
    s = snap(e)
    rng = env.rng()
    r = ut.get_noise_image(e, rng=rng, remove_poisson=gains is not None)
    mg = None if g is None else sum(g[1:], g[0]) / len(g)
    good = []
    for p in pixels(dims):
        v, x = s['variance'][p], s['image'][p]
        if env.possible(env.And(np.isfinite(v), np.isfinite(x))):
            good.append(v if mg is None else v - x / mg)
    for n in s:
        env.check_eq('%s of the input kept' % n, getattr(e, n).array, s[n])
    env.check_eq('mask', r.mask.array, s['mask'])
    env.check('place', r.getBBox() == e.getBBox())
    if not good:
        for p in pixels(dims):
            env.check('no noise level', env.isnan(r.image.array[p]))
        return
    var = np.median(np.array(good))
    d = env.draws()
    env.check('a draw for each pixel', len(d) == dims[0] * dims[1])
    sd = np.sqrt(var)
    for k, p in enumerate(pixels(dims)):
        env.check_eq('noise', r.image.array[p], sd * d[k], tol=1e-3)
        env.check_eq('variance', r.variance.array[p], var, tol=1e-3)


# id, parent, pixels (x, y) relative to the corner
FEET = {
    'two': [[3, 0, [[0, 0], [1, 0]]], [8, 0, [[2, 1]]]],
    'touch': [[3, 0, [[0, 0], [1, 0]]], [8, 0, [[1, 1], [1, 2], [0, 1]]]],
    'one': [[5, 0, [[1, 1], [2, 1], [0, 2]]]],
    'none': [],
    # a blend and its two children
    'blend': [[2, 0, [[0, 0], [1, 0], [2, 0], [2, 1]]],
              [6, 2, [[0, 0], [1, 0]]], [7, 2, [[2, 0], [2, 1]]],
              [9, 0, [[0, 2]]]],
}


def _sources(l, feet, xy0):
    return l.table.SourceCatalog([
        l.source(i, (xy0[0] + p[0][0], xy0[1] + p[0][1]), parent,
                 sum(f[1] == i for f in FEET[feet]),
                 pix=[(x + xy0[0], y + xy0[1]) for x, y in p])
        for i, parent, p in FEET[feet]])


def _state(env, e, s, noise, feet, shown, what):
    """sources other than the one shown are noise"""
    inside = {}
    for i, parent, pix in FEET[feet]:
        for x, y in pix:
            inside.setdefault((y, x), set()).add(i)
    for p in pixels(s['image'].shape):
        i = inside.get(p, set())
        env.check_eq(what, e.image.array[p], s['image'][p]
                     if not i or i & set(shown) or 'all' in shown
                     else noise[p], tol=1e-3)
    env.check_eq('variance kept', e.variance.array, s['variance'])
    env.check_eq('mask kept', e.mask.array, s['mask'])


class Oops(Exception):
    pass


def replacer(env, feet, kind='multi', nband=1, dims=(3, 3), xy0=(0, 0),
             raises=None, given=False, again=False):
    """raises: None, 'source' inside of sourceInserted (caught inside of the
    replacer) or 'body' (not caught inside)"""
    l = L(env)
    np = env.np
    ut = env.mod('metadetect.lsst.util')
    env.median_limit(4)
    exps = []
    for b in range(nband):
        e = l.anyexp('e%d' % b, dims, xy0, planes='im', wcs=l.affine(),
                     band=BANDS[b])
        e.variance.array[:, :] = env.real('var%d' % b, 1, 100)
        exps.append(e)
    src = _sources(l, feet, xy0)
    made = []
    l.hooks['noise_replacer'] = made.append
    rng = env.rng()
    if kind == 'multi':
        mb = l.full(exps)
        exps = mb.singles
    before = [snap(e) for e in exps]
    kw = {}
    noise = None
    if given:
        ni = l.anyexp('noise', dims, xy0, planes='i')
        noise = [ni.image.array.copy()]
        kw['noise_image'] = ni.maskedImage
        if kind == 'context':
            kw['config'] = env.mod('lsst.meas.base').NoiseReplacerConfig()

    def expected():
        if noise is not None:
            return noise
        d = env.draws()
        n = dims[0] * dims[1]
        env.check('draws', len(d) == n * nband)
        return [np.array(d[n * b:n * b + n]).reshape(dims)
                * np.sqrt(before[b]['variance'][0, 0]) for b in range(nband)]

    def state(shown, what):
        for b, e in enumerate(exps):
            _state(env, e, before[b], nz[b], feet, shown, what)

    if kind == 'plain':
        R = ut.get_noise_replacer(exps[0], src, **kw)
        nz = noise
        state([], 'sources are replaced')
        for i, _, _ in FEET[feet]:
            R.insertSource(i)
            state([i], 'the source is inserted')
            R.removeSource(i)
        R.end()
        state(['all'], 'restored')
        return
    if kind == 'multi':
        cm = ut.MultibandNoiseReplacer(mbexp=mb, sources=src, rng=rng)
    else:
        cm = ut.ContextNoiseReplacer(exps[0], src, rng, **kw)
    nz = expected()
    env.check('one replacer for each band', len(made) == nband)
    for m in made:
        env.check('sources and their parents', sorted(
            (i, f[0]) for i, f in m.footprints.items()) == sorted(
                (i, p) for i, p, _ in FEET[feet]))
        v = m.config.noiseSeedMultiplier
        env.check('seed', env.And(v >= 0, v < 2 ** 24))
    err = None
    try:
        with cm as R:
            env.check('context', R is cm)
            state([], 'sources are replaced')
            for i, _, _ in FEET[feet] * (2 if again else 1):
                e2 = None
                try:
                    with R.sourceInserted(i) as y:
                        if kind == 'multi':
                            env.check('exposures', y is mb)
                        state([i], 'the source is inserted')
                        if raises == 'source':
                            raise Oops
                except Oops:
                    e2 = True
                env.check('errors are passed on',
                          (e2 is not None) == (raises == 'source'))
                state([], 'the source is removed')
                if raises == 'body':
                    with R.sourceInserted(i):
                        raise Oops
    except Oops:
        err = True
    env.check('errors of the body are passed on', (err is not None) == (
        raises == 'body' and len(FEET[feet]) > 0))
    state(['all'], 'restored')
    env.check('ended once', [m.ended for m in made] == [1] * nband)


def partial(env, nband=2, at=1, feet='two', dims=(3, 3)):
    """replacing fails for one band: no band is left with noise"""
    l = L(env)
    ut = env.mod('metadetect.lsst.util')
    env.median_limit(2)
    exps = []
    for b in range(nband):
        e = l.anyexp('e%d' % b, dims, planes='im', wcs=l.affine(),
                     band=BANDS[b])
        e.variance.array[:, :] = env.real('var%d' % b, 1, 100)
        exps.append(e)
    mb = l.full(exps)
    before = [snap(e) for e in mb.singles]
    made = []

    def hook(r):
        made.append(r)
        if len(made) == at + 1:
            r.end()
            raise Oops
    l.hooks['noise_replacer'] = hook
    try:
        ut.MultibandNoiseReplacer(mbexp=mb, sources=_sources(l, feet, (0, 0)),
                                  rng=env.rng())
        err = False
    except Oops:
        err = True
    env.check('errors are passed on', err == (at < nband))
    for e, s in zip(mb.singles, before):
        _state(env, e, s, s['image'], feet, ['all'], 'restored') \
            if err else None
