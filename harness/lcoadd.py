"""coadd of bands (metadetect/lsst/util.py)"""
from .common import pixels
from .lcommon import L, snap
from .lmcal import BANDS


def exposures(env, dims, n=2, xy0=(0, 0), vlo=1, infs=(), none=(), psfdim=3,
              planes='ivm', cls='ExposureF', neg=0, med=2):
    """infs: exposures with infinite variance, none: without good pixels,
    neg: number of pixels of the first that may be bad"""
    l = L(env)
    np = env.np
    ut = env.mod('metadetect.lsst.util')
    env.median_limit(med)
    exps = []
    for k in range(n):
        p = np.zeros((psfdim, psfdim)) + 1.0
        p[psfdim // 2, psfdim // 2] = env.real('p%d' % k, 2, 10)
        p[0, 0] = 0.5 * k
        e = l.anyexp('e%d' % k, dims, xy0, wcs=l.affine(x0=3 + k),
                     psf=l.posPsf(p), band=BANDS[k], vlo=vlo, cls=cls,
                     planes=planes)
        if k in infs:
            e.variance.array[:, :] = np.inf
        if k in none:
            e.variance.array[:, :] = 0.0
            e.variance.array[0, 0] = -1.0
        exps.append(e)
    for i in range(neg):
        exps[0].variance.array[i // dims[1], i % dims[1]] = env.real(
            'bad%d' % i, -4, 4)
    before = [snap(e) for e in exps]
    r = ut.coadd_exposures(exps)
    for e, s in zip(exps, before):
        for m in ('image', 'variance', 'mask'):
            env.check_eq('exposures unchanged', getattr(e, m).array, s[m])
    cx, cy = xy0[0] + (dims[1] - 1) / 2, xy0[1] + (dims[0] - 1) / 2
    im = [[np.float64(0)] * dims[1] for _ in range(dims[0])]
    wt = [[np.float64(0)] * dims[1] for _ in range(dims[0])]
    psf = np.zeros((psfdim, psfdim))
    wsum, have = 0.0, False
    mask = before[0]['mask'] * 0
    for k, s in enumerate(before):
        mask = mask | s['mask']
        if k in infs:
            continue
        good = {p: env.possible(s['variance'][p] > 0) for p in pixels(dims)}
        sel = [s['variance'][p] for p in pixels(dims) if good[p]]
        if not sel:
            continue
        w = 1 / np.median(np.array(sel))
        wsum = wsum + w
        have = True
        psf = psf + exps[k].getPsf().at(cx, cy) * w
        for p in pixels(dims):
            if good[p]:
                im[p[0]][p[1]] = im[p[0]][p[1]] + s['image'][p] * w
                wt[p[0]][p[1]] = wt[p[0]][p[1]] + 1 / s['variance'][p]
    env.check('nothing iff there is no weight', (r is None) == (not have))
    if r is None or not have:
        return
    inf = np.float64(np.inf)
    for p in pixels(dims):
        w = wt[p[0]][p[1]]
        env.check_eq('mean', r.image.array[p], im[p[0]][p[1]] * (1 / wsum),
                     tol=1e-3)
        if not env.possible(w > 0):
            env.check_eq('no variance', r.variance.array[p], inf)
        else:
            env.check_eq('variance', r.variance.array[p], 1 / w, tol=1e-3)
    env.check_eq('mask', r.mask.array, mask)
    env.check_eq('psf', r.getPsf().computeKernelImage(None).array,
                 psf * (1 / psf.sum()), tol=1e-4)
    env.check('wcs', r.getWcs() is exps[0].getWcs())
    env.check('place', r.getBBox() == exps[0].getBBox())


def mbobs(env, dims, n=2, psfdim=3, med=2):
    """coadd of observations"""
    l = L(env)  # noqa
    np = env.np
    ngmix = env.mod('ngmix')
    ut = env.mod('metadetect.lsst.util')
    env.median_limit(med)
    mb = ngmix.MultiBandObsList()
    ims, wts, psfs, jacs = [], [], [], []
    for k in range(n):
        im = env.arr_real('im%d' % k, dims, -1000, 1000)
        wt = env.arr_real('wt%d' % k, dims, 1 / 64, 1000)
        p = env.arr_real('p%d' % k, (psfdim, psfdim), 1 / 4, 10)
        j = ngmix.DiagonalJacobian(row=1 + k, col=2 + k, scale=.25)
        ol = ngmix.ObsList()
        ol.append(ngmix.Observation(
            im.copy(), weight=wt.copy(), jacobian=j, meta={'m%d' % k: k},
            psf=ngmix.Observation(p.copy(), jacobian=j)))
        mb.append(ol)
        ims.append(im)
        wts.append(wt)
        psfs.append(p)
        jacs.append(j)
    r = ut.coadd_mbobs(mb)
    w = [np.median(x) for x in wts]
    wsum = sum(w[1:], w[0])
    env.check_eq('mean', r.image, (1 / wsum) *
                 sum((i * x for i, x in zip(ims, w)), np.zeros(dims)))
    env.check_eq('weight', r.weight, sum(wts, np.zeros(dims)))
    p = sum((i * x for i, x in zip(psfs, w)), np.zeros((psfdim, psfdim)))
    env.check_eq('psf', r.psf.image, p * (1 / p.sum()))
    env.check('meta data', dict(r.meta) == {'m%d' % k: k for k in range(n)})
    env.check_eq('jacobian', r.jacobian.row0, jacs[-1].row0)
    for ol, im in zip(mb, ims):
        env.check_eq('input unchanged', ol[0].image, im)
