"""exposures and observations (metadetect/lsst/util.py)"""
from .lcommon import L, snap
from .lmcal import jac_at, cen_of

FAC = 0.0001


def _jac(env, label, j, want, row, col):
    for n, v in zip(('dudcol', 'dudrow', 'dvdcol', 'dvdrow'), want):
        env.check_eq(label, getattr(j, n), v)
    env.check_eq(label + ' row', j.row0, row)
    env.check_eq(label + ' col', j.col0, col)


def _psf_obs(env, label, psf, image, jac):
    env.check_eq(label + ' image', psf.image, image, tol=1e-4)
    m = (image.shape[0] - 1) / 2
    _jac(env, label + ' jacobian', psf.jacobian, jac, m, m)
    big = image[image.shape[0] // 2, image.shape[0] // 2]
    env.check_eq(label + ' weight', psf.weight * big * big * FAC * FAC,
                 env.np.ones(image.shape), tol=1e-3)


def exp2obs(env, dims, xy0=(0, 0), mask='ormask', store=False, psfdim=3,
            cls='ExposureF', vlo=-4):
    """exposure to observation, at the centre of the image"""
    l = L(env)
    np = env.np
    ut = env.mod('metadetect.lsst.util')
    wcs = l.affine('w')
    p = np.zeros((psfdim, psfdim)) + 1.0
    p[psfdim // 2, psfdim // 2] = env.real('p', 40, 100)
    psf = l.posPsf(p)
    e = l.anyexp('e', dims, xy0, wcs=wcs, psf=psf, band='i', vlo=vlo,
                 cls=cls)
    s = snap(e)
    good = [v > 0 for v in s['variance'].ravel()]
    if not env.possible(env.Or(*good)):
        return
    kw = {} if mask == 'ormask' else {'copy_mask_to': mask}
    if mask not in ('ormask', 'bmask'):
        try:
            ut.exp2obs(e, **kw)
            ok = True
        except RuntimeError:
            ok = False
        env.check('unknown mask is refused', not ok)
        return
    o = ut.exp2obs(e, store_exp=store, **kw)
    env.check_eq('image', o.image, s['image'])
    wt = np.zeros(dims)
    for i in range(dims[0]):
        for j in range(dims[1]):
            v = s['variance'][i, j]
            g = v > 0
            wt[i, j] = env.ite(g, 1 / env.ite(g, v, v * 0 + 1), v * 0)
    env.check_eq('weight', o.weight, wt)
    other = 'bmask' if mask == 'ormask' else 'ormask'
    env.check_eq('mask', getattr(o, mask), s['mask'])
    env.check_eq('other mask', getattr(o, other), s['mask'] * 0)
    cx, cy = cen_of(dims, xy0)
    if dims[0] % 2 == 0 or dims[1] % 2 == 0:
        # the centre of an even image is rounded
        pc, sky = ut.get_integer_center(wcs, e.getBBox())
        env.check('centre of the image',
                  abs(pc.getX() - (xy0[0] + (dims[1] - 1) / 2)) <= .5
                  and abs(pc.getY() - (xy0[1] + (dims[0] - 1) / 2)) <= .5)
        cx, cy = pc.getX(), pc.getY()
    J = jac_at(env, wcs, cx, cy)
    _jac(env, 'jacobian', o.jacobian, J, cy - xy0[1], cx - xy0[0])
    _psf_obs(env, 'psf', o.psf, psf.at(cx, cy), J)
    env.check('exposure in the meta data',
              ('exposure' in o.meta) == store
              and (not store or o.meta['exposure'] is e))
    # and back
    for n in ('image', 'variance', 'mask'):
        env.check_eq('exposure unchanged', getattr(e, n).array, s[n])
    back = ut.obs2exp(o, copy_mask_from=mask, copy_psf=True)
    env.check_eq('image back', back.image.array, s['image'])
    env.check_eq('mask back', back.mask.array, s['mask'])
    _var(env, 'variance back', back.variance.array, s['variance'])
    env.check_eq('psf back', back.getPsf().computeKernelImage(None).array,
                 psf.at(cx, cy))


def _var(env, label, got, v0):
    """variance where there is some, infinite elsewhere"""
    np = env.np
    for i in range(v0.shape[0]):
        for j in range(v0.shape[1]):
            v = v0[i, j]
            env.check_eq(label, got[i, j], env.ite(
                v > 0, v, np.float64(np.inf)), tol=1e-3)


def obs2exp(env, dims, xy0=(0, 0), mask='bmask', into=True, copy_psf=False):
    """observation into an exposure: the pixels"""
    l = L(env)
    np = env.np
    ngmix = env.mod('ngmix')
    ut = env.mod('metadetect.lsst.util')
    im = env.arr_real('im', dims, -1000, 1000)
    wt = env.arr_real('wt', dims, 0, 1000)
    if not env.possible(env.Or(*[v > 0 for v in wt.ravel()])):
        return
    bm, om = env.arr_bv('bm', dims), env.arr_bv('om', dims)
    pim = env.arr_real('p', (3, 3), 1 / 4, 10)
    jac = ngmix.DiagonalJacobian(row=0, col=0, scale=1 / 4)
    o = ngmix.Observation(im.copy(), weight=wt.copy(), bmask=bm.copy(),
                          ormask=om.copy(), jacobian=jac,
                          psf=ngmix.Observation(pim.copy(), jacobian=jac))
    kw = {}
    wcs, psf = l.affine(), l.posPsf(np.ones((3, 3)))
    if into:
        e = l.anyexp('e', dims, xy0, wcs=wcs, psf=psf, band='i')
        kw['exp'] = e
    if mask not in ('bmask', 'ormask'):
        try:
            ut.obs2exp(o, copy_mask_from=mask, **kw)
            ok = True
        except RuntimeError:
            ok = False
        env.check('unknown mask is refused', not ok)
        return
    if mask != 'bmask':
        kw['copy_mask_from'] = mask
    r = ut.obs2exp(o, copy_psf=copy_psf, **kw)
    if into:
        env.check('into the exposure', r is e)
        env.check('wcs kept', r.getWcs() is wcs)
        env.check('filter kept', r.getFilter().bandLabel == 'i')
        env.check('place kept', tuple(r.getXY0()) == tuple(xy0))
    env.check_eq('image', r.image.array, im)
    env.check_eq('mask', r.mask.array, bm if mask == 'bmask' else om)
    for i in range(dims[0]):
        for j in range(dims[1]):
            w = wt[i, j]
            g = w > 0
            env.check_eq('variance', r.variance.array[i, j], env.ite(
                g, 1 / env.ite(g, w, w * 0 + 1), np.float64(np.inf)),
                tol=1e-3)
    if copy_psf:
        env.check_eq('psf', r.getPsf().computeKernelImage(None).array, pim)
    elif into:
        env.check('psf kept', r.getPsf() is psf)
    # copied
    r.image.array[:, :] = -5.0
    r.mask.array[:, :] = 0
    env.check_eq('observation unchanged', o.image, im)
    env.check_eq('observation unchanged', o.bmask, bm)
    env.check_eq('observation unchanged', o.ormask, om)


def source(env, dims, xy0=(0, 0), nocen=False, nocoord=False, vlo=-4,
           psfdim=3, light=False):
    """observation at a source"""
    l = L(env)
    np = env.np
    ut = env.mod('metadetect.lsst.util')
    wcs = l.affine('w')
    p = np.zeros((psfdim, psfdim)) + 1.0
    p[psfdim // 2, psfdim // 2] = env.real('p', 100, 200)
    psf = l.posPsf(p)
    e = l.anyexp('e', dims, xy0, wcs=wcs, psf=psf, band='i', vlo=vlo,
                 planes='v' if light else 'ivm')
    s = snap(e)
    nan = float('nan')
    px, py = xy0[0] + dims[1] // 3, xy0[1] + dims[0] // 2
    cx, cy = px + env.real('dx', -1, 1), py + env.real('dy', -1, 1)
    ra, de = 10 + env.real('ra', -4, 4), -3 + env.real('de', -4, 4)
    src = l.source(5, (px, py), centroid=(cx, cy),
                   coord=(nan, nan) if nocoord else (ra, de))
    good = [v > 0 for v in s['variance'].ravel()]
    some = env.possible(env.Or(*good))
    try:
        o = ut.extract_obs(e, src)
    except ut.AllZeroWeightError:
        o = None
    env.check('error iff there is no weight', (o is None) == (not some))
    for n in ('image', 'variance', 'mask'):
        env.check_eq('exposure unchanged', getattr(e, n).array, s[n])
    if o is None or not some:
        return
    env.check_eq('image', o.image, s['image'])
    env.check_eq('bmask', o.bmask, s['mask'])
    n = sum(1 for g in good if env.possible(g))
    sel = [v for v in s['variance'].ravel() if env.possible(v > 0)]
    med = np.median(np.array(sel))
    env.check('good pixels', len(sel) == n)
    env.check_eq('weight', o.weight, np.zeros(dims) + 1 / med, tol=1e-3)
    if nocoord:
        x, y = px, py
    else:
        q = wcs.skyToPixel(src.getCoord())
        x, y = q.x, q.y
    J = jac_at(env, wcs, x, y)
    _jac(env, 'jacobian', o.jacobian, J, y - xy0[1], x - xy0[0])
    _psf_obs(env, 'psf', o.psf, psf.at(cx, cy), J)
    env.check('centroid', o.meta['orig_cen'] is src.getCentroid())


def psfs(env, mode):
    """psf images that can not be used are refused"""
    l = L(env)
    np = env.np
    ut = env.mod('metadetect.lsst.util')
    shape = [(3, 3), (2, 2), (3, 5), (5, 3), (1, 1), (4, 3)][
        env.choose('shape', 6)]
    im = np.ones(shape)

    class Psf:
        def computeKernelImage(self, pos=None):
            if mode == 'missing':
                raise l.exc.InvalidParameterError('x')
            return l.image.ImageD(im)
    e = l.anyexp('e', (3, 3), wcs=l.affine(), psf=Psf(), planes='')
    src = l.source(5, (1, 1), centroid=(1.0, 1.0), coord=(10.0, -3.0))
    ok = shape[0] == shape[1] and shape[0] % 2 == 1
    for f in (lambda: ut.extract_obs(e, src), lambda: ut.exp2obs(e)):
        try:
            f()
            got = 'ok'
        except AssertionError:
            got = 'shape'
        except ut.MissingDataError:
            got = 'missing'
        except l.exc.InvalidParameterError:
            got = 'missing'
        env.check('psf', got == ('missing' if mode == 'missing' else
                                 'ok' if ok else 'shape'))
