"""columns for masks, masked fractions and original psfs
(metadetect/lsst/metadetect.py)"""
from .common import pixels
from .lcommon import L, snap
from .lmcal import BANDS, jac_at

PSFF = 2 ** 21


def _bands(env, l, dims, nband, xy0, planes='', psfs=False, log=None,
           psfdim=3):
    np = env.np
    exps = []
    for b in range(nband):
        p = np.zeros((psfdim, psfdim)) + 1.0 + b
        if psfs:
            p[psfdim // 2, psfdim // 2] = env.real('psf%d' % b, 4, 40)
        exps.append(l.anyexp('e%d' % b, dims, xy0, planes=planes, vlo=1,
                             wcs=l.affine('w%d' % b if psfs else None,
                                          x0=3 + b),
                             psf=l.posPsf(p, log), band=BANDS[b]))
    return exps


def average(env, dims, nband, xy0=(0, 0), bad=(), infs=(), none=False,
            med=2, vlo=-4):
    """masked fraction over the bands: bad: bands with any variance, infs:
    bands with an infinite and a nan variance"""
    l = L(env)
    np = env.np
    md = env.mod('metadetect.lsst.metadetect')
    env.median_limit(med)
    exps = _bands(env, l, dims, nband, xy0)
    mfs = []
    for b, e in enumerate(exps):
        e.variance.array[:, :] = env.arr_real(
            'va%d' % b, dims, vlo if b in bad else 1, 100)
        if b in infs:
            e.variance.array[0, 0] = np.inf
            e.variance.array[0, 1] = np.nan
        m = l.anyexp('m%d' % b, dims, xy0, planes='', wcs=e.getWcs(),
                     psf=e.getPsf(), band=BANDS[b])
        if none:
            m.image.array[:, :] = 0.0
        else:
            m.image.array[:, :] = env.arr_real('mf%d' % b, dims, 0, 1)
        mfs.append(m)
    mb, mmb = l.full(exps), l.full(mfs)
    before = [[snap(e) for e in x.singles] for x in (mb, mmb)]
    wts = []
    for b in range(nband):
        v = before[0][b]['variance']
        sel = []
        for k, p in enumerate(pixels(dims)):
            if b in infs and k < 2:
                continue
            if b not in bad or env.possible(v[p] > 0):
                sel.append(v[p])
        wts.append(1 / np.median(np.array(sel)) if sel else None)
    if none:
        mmb = None
    try:
        mf, wg = md.get_mfrac_mbexp(mb, mmb)
        err = False
    except ValueError:
        err = True
    env.check('error iff a band has no variance', err == (None in wts))
    if err or None in wts:
        return
    env.check('one weight per band', len(wg) == nband)
    for b in range(nband):
        env.check_eq('weight', wg[b], wts[b], tol=1e-4)
    env.shape_is('shape', mf, tuple(dims))
    ws = sum(wts)
    for p in pixels(dims):
        num = 0.0
        for b in range(nband):
            num = num + wts[b] * before[1][b]['image'][p]
        env.check_eq('masked fraction', mf[p], num / ws, tol=1e-4)
        if not none:
            env.check('a fraction', env.And(mf[p] >= -1e-6, mf[p] <= 1 + 1e-6))
    mf[:, :] = -1.0
    for x, s in zip((mb, mmb), before):
        if x is None:
            continue
        for e, t in zip(x.singles, s):
            for n in ('image', 'variance', 'mask'):
                env.check_eq('input unchanged', getattr(e, n).array, t[n])


def ormasks(env, dims, nband, xy0=(0, 0), given=True, n=None):
    """or of the masks of all bands"""
    l = L(env)
    np = env.np
    md = env.mod('metadetect.lsst.metadetect')
    mb = l.full(_bands(env, l, dims, nband, xy0, planes='m'))
    if not given:
        r = md.combine_ormasks(mb, None)
        env.shape_is('shape', r, tuple(dims))
        env.check_eq('no mask', r, np.zeros(dims, dtype='i4'))
        return
    ms = [env.arr_bv('or%d' % b, dims) for b in range(n or nband)]
    keep = [m.copy() for m in ms]
    r = md.combine_ormasks(mb, ms)
    want = keep[0]
    for k in keep[1:]:
        want = want | k
    env.check_eq('or of the masks', r, want)
    r[:, :] = 0
    for m, k in zip(ms, keep):
        env.check_eq('masks unchanged', m, k)


def _rows(env, n, xy0, pos, extra):
    np = env.np
    r = np.zeros(n, dtype=[
        ('row0', 'i4'), ('col0', 'i4'), ('row', 'f4'), ('col', 'f4'),
        ('psfrec_flags', 'i4'), ('psfrec_navg', 'i2'),
        ('psfrec_g', 'f8', 2), ('psfrec_T', 'f8'), ('bmask', 'i4'),
        ('ormask', 'i4'), ('mfrac', 'f4')])
    for n in ('psfrec_flags', 'psfrec_navg', 'psfrec_g', 'psfrec_T',
              'bmask', 'ormask', 'mfrac'):
        r[n] = 77
    for i, (y, x) in enumerate(pos):
        r['row0'][i] = xy0[1]
        r['col0'][i] = xy0[0]
        r['row'][i] = y
        r['col'][i] = x
    return r


def _others(env, r, names):
    for n in ('psfrec_flags', 'psfrec_navg', 'psfrec_g', 'psfrec_T',
              'bmask', 'ormask', 'mfrac'):
        if n not in names:
            env.check('others are kept: ' + n, env.And(
                *[v == 77 for v in r[n].ravel()]))


def maskcol(env, dims, n=1, xy0=(0, 0)):
    """the bits at the nearest pixel, for any position in the image"""
    md = env.mod('metadetect.lsst.metadetect')
    om = env.arr_bv('om', dims)
    pos = []
    for i in range(n):
        y = env.real('y%d' % i, -.5, dims[0] - .5)
        x = env.real('x%d' % i, -.5, dims[1] - .5)
        for v, k in ((y, dims[0]), (x, dims[1])):
            for t in range(-1, k):
                env.assume(env.Or(v > t + .501, v < t + .499))
        pos.append((xy0[1] + y, xy0[0] + x))
    r = _rows(env, n, xy0, pos, None)
    keep = om.copy()
    md.add_ormask(om, r)
    for i, (y, x) in enumerate(pos):
        y, x = y - xy0[1], x - xy0[0]
        want = 0
        for a, b in pixels(dims):
            want = want | env.ite(env.And(
                y > a - .5, y < a + .5, x > b - .5, x < b + .5),
                keep[a, b], keep[a, b] * 0)
        env.check_eq('bits at the position', r['ormask'][i], want)
    env.check_eq('mask kept', om, keep)
    _others(env, r, ['ormask'])


def psfcol(env, n=2):
    """columns of the original psf"""
    np = env.np
    md = env.mod('metadetect.lsst.metadetect')
    st = {'flags': env.int('flags', 0, 2 ** 30), 'navg': env.int('n', 0, 9)}
    for k in ('e1', 'e2', 'g1', 'g2', 'T'):
        st[k] = env.real(k, -1, 1)
    keep = dict(st)
    r = _rows(env, n, (0, 0), [(1., 1.)] * n, None)
    md.add_original_psf(st, r)
    for i in range(n):
        env.check_eq('flags', r['psfrec_flags'][i], keep['flags'])
        env.check_eq('number', r['psfrec_navg'][i], keep['navg'])
        env.check_eq('T', r['psfrec_T'][i], keep['T'])
        env.check_eq('g', r['psfrec_g'][i],
                     np.array([keep['g1'], keep['g2']]))
    _others(env, r, [k for k in r.dtype.names if k.startswith('psfrec')])


def mfcol(env, dims, pos, xy0=(0, 0), fwhm=None, zero=False, anywhere=None):
    """weighted mean of the masked fraction about the positions (row, col);
    anywhere: any row or column in the pixel of the first"""
    l = L(env)
    np = env.np
    md = env.mod('metadetect.lsst.metadetect')
    e = _bands(env, l, dims, 1, xy0)[0]
    mf = np.zeros(dims)
    if not zero:
        mf = env.arr_real('mf', dims, 0, 1)
    keep = mf.copy()
    pos = [(np.float64(p[0]), np.float64(p[1])) for p in pos]
    if anywhere:
        d = env.real('d', -.49, .49)
        y, x = pos[0]
        pos[0] = (y + d, x) if anywhere == 'row' else (y, x + d)
    r = _rows(env, len(pos), xy0,
              [(p[0] + xy0[1], p[1] + xy0[0]) for p in pos], None)
    conf = {'detect': {}}
    if fwhm:
        conf['mfrac_fwhm'] = fwhm
    md.add_mfrac(config=conf, mfrac=mf, res=r, exp=e)
    env.check_eq('image kept', mf, keep)
    _others(env, r, ['mfrac'])
    if fwhm is None:
        fwhm = 1.2
    mom = env.mod('ngmix').moments
    T, rad = mom.fwhm_to_T(fwhm), int(round(mom.fwhm_to_sigma(fwhm) * 5))
    cx = xy0[0] + _round((dims[1] - 1) / 2)
    cy = xy0[1] + _round((dims[0] - 1) / 2)
    J = jac_at(env, e.getWcs(), cx, cy)
    some = not zero and env.possible(env.Or(*[v > 0 for v in keep.ravel()]))
    for i, (y, x) in enumerate(pos):
        iy, ix = int(np.floor(y + .5)), int(np.floor(x + .5))
        num = den = 0.0
        for a in range(max(0, iy - rad), min(dims[0], iy + rad + 1)):
            for b in range(max(0, ix - rad), min(dims[1], ix + rad + 1)):
                u = J[0] * (b - x) + J[1] * (a - y)
                v = J[2] * (b - x) + J[3] * (a - y)
                r2 = u * u + v * v
                if r2 <= rad * rad:
                    g = 1 / (1 + r2 / T)
                    num = num + g * keep[a, b]
                    den = den + g
        if not some:
            env.check_eq('nothing masked', r['mfrac'][i], 0.0)
        elif isinstance(den, float) and den == 0:
            env.check('no pixel', env.Not(r['mfrac'][i] < 1))
        else:
            env.check_eq('masked fraction', r['mfrac'][i], num / den,
                         tol=1e-4)


def _round(v):
    """the nearest pixel, as integer points do"""
    import math
    return math.floor(v + .5)


def psfs(env, nband, shear=None, xy0=(0, 0), dims=(3, 5), fail=(),
         raises=(), missing=False, psfdim=3):
    """fits of the original psfs; fail: bands with any flags, raises: bands
    where the fit raises an error [band, kind]"""
    l = L(env)
    np = env.np
    md = env.mod('metadetect.lsst.metadetect')
    ngmix = env.mod('ngmix')
    ex = ngmix.gexceptions
    log, order = [], []
    exps = _bands(env, l, dims, nband, xy0, psfs=True, log=log,
                  psfdim=psfdim)
    mb = l.full(exps)
    before = [snap(e) for e in mb.singles]
    fit = []
    for b in range(nband):
        e = [env.real('e%d%d' % (k, b), -.5, .5) for k in (1, 2)]
        f = env.int('flags%d' % b, 0, 2) * 4 if b in fail else 0
        fit.append({'flags': f, 'e': np.array(e),
                    'T': env.real('T%d' % b, 1 / 8, 10)})
    wts = [env.real('wt%d' % b, 1 / 8, 10) for b in range(nband)]
    cx = xy0[0] + _round((dims[1] - 1) / 2)
    cy = xy0[1] + _round((dims[0] - 1) / 2)
    imgs = [e.getPsf().at(cx, cy) for e in exps]
    del log[:]
    raised = {b: k for b, k in raises}
    rng = env.rng()

    def go(runner, obs):
        b = len(order)
        order.append(obs)
        env.check('random numbers', runner.fitter.kw.get('rng') is rng)
        if b in raised:
            raise {'psf': ex.BootPSFFailure, 'range': ex.GMixRangeError}[
                raised[b]]('x')
        return fit[b]
    ngmix.hooks['psf_runner_go'] = go
    names = None if shear is None else [BANDS[i] for i in shear]
    if missing:
        names = (names or []) + ['u']
    conf = {'shear_bands': names}
    try:
        st = md.fit_original_psfs_mbexp(mbexp=mb, rng=rng, wgts=list(wts),
                                        config=conf)
        err = None
    except RuntimeError:
        err = True
    env.check('error iff a band is missing', bool(err) == missing)
    if err:
        return
    for b, o in enumerate(order):
        env.check_eq('psf image', o.image, imgs[b], tol=1e-4)
        J = jac_at(env, exps[b].getWcs(), cx, cy)
        for n, v in zip(('dudcol', 'dudrow', 'dvdcol', 'dvdrow'), J):
            env.check_eq('jacobian', getattr(o.jacobian, n), v)
        c = (psfdim - 1) / 2
        env.check_eq('centre', o.jacobian.row0, c)
        env.check_eq('centre', o.jacobian.col0, c)
    for e, s in zip(mb.singles, before):
        for n in ('image', 'variance', 'mask'):
            env.check_eq('input unchanged', getattr(e, n).array, s[n])
    bad = env.possible(env.Or(*[f['flags'] != 0 for f in fit])) \
        if fail else False
    bad = bad or bool(raised)
    if bad:
        env.check_eq('failure is flagged', st['flags'], PSFF)
        env.check_eq('number', st['navg'], 0)
        for n in ('e1', 'e2', 'g1', 'g2', 'T'):
            env.check_eq('no measurement', st[n], -9999.0)
        env.check('no bands', st['perband'] is None)
        return
    env.check('all bands are fit', len(order) == nband)
    use = list(range(nband)) if shear is None else sorted(shear)
    env.check_eq('no failure', st['flags'], 0)
    env.check_eq('number', st['navg'], len(use))
    ws = sum(wts[b] for b in use)
    e1 = sum(wts[b] * fit[b]['e'][0] for b in use) / ws
    e2 = sum(wts[b] * fit[b]['e'][1] for b in use) / ws
    env.check_eq('e1', st['e1'], e1)
    env.check_eq('e2', st['e2'], e2)
    env.check_eq('T', st['T'], sum(wts[b] * fit[b]['T'] for b in use) / ws)
    g1, g2 = ngmix.shape.e1e2_to_g1g2(e1, e2)
    env.check_eq('g1', st['g1'], g1)
    env.check_eq('g2', st['g2'], g2)
    pb = st['perband']
    env.check('all bands', len(pb) == nband)
    for b in range(nband):
        env.check_eq('band e1', pb['e1'][b], fit[b]['e'][0])
        env.check_eq('band e2', pb['e2'][b], fit[b]['e'][1])
        env.check_eq('band T', pb['T'][b], fit[b]['T'])
        env.check_eq('band weight', pb['wgt'][b], wts[b])
        env.check('shear band', bool(pb['is_shear_band'][b]) == (b in use))
