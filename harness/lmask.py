"""masks of LSST exposures (metadetect/lsst/masking.py)"""
from .common import pixels
from .lcommon import L, snap
from .masking import _square, _inside

BANDS = ['g', 'r', 'i', 'i2', 'z', 'y']


def _inputs(l, env, dims, nband, noise, mfrac, nor, xy0=(0, 0), light=False):
    wcs = l.affine()
    mk = lambda p: l.full([l.anyexp(  # noqa
        p + b, dims, xy0, wcs=wcs, band=b, code=3 + k, planes='' if light
        else 'ivm') for k, b in enumerate(BANDS[:nband])])
    mb = mk('e')
    nb = mk('n') if noise else None
    mf = None
    if mfrac:
        es = []
        for b in BANDS[:nband]:
            e = l.anyexp('f' + b, dims, xy0, planes='', band=b, wcs=wcs,
                         code=0)
            if not light:
                e.image.array[:, :] = env.arr_real('f%s_mf' % b, dims, 0, 1)
            es.append(e)
        mf = l.full(es)
    orm = None
    if nor:
        orm = [env.np.zeros(dims, dtype='i4') + 5 if light else
               env.arr_bv('or%d' % k, dims) for k in range(nor)]
    return mb, nb, mf, orm


def _snaps(*mbs):
    return [None if m is None else [snap(e) for e in m.singles] for m in mbs]


def _check(env, new, old, ormasks, olds, ap, bits, ebits):
    """new, old: data, noise, mfrac"""
    np = env.np
    for k, (mb, sl) in enumerate(zip(new, old)):
        if mb is None:
            continue
        for e, s in zip(mb.singles, sl):
            for p in s['image'].shape and pixels(s['image'].shape):
                a = ap[p]
                m = a < 1
                if k == 2:
                    env.check_eq('masked fraction', e.image.array[p],
                                 env.ite(m, np.float64(1), s['image'][p]),
                                 tol=1e-3)
                    env.check_eq('masked fraction variance',
                                 e.variance.array[p], s['variance'][p],
                                 tol=1e-3)
                    continue
                env.check_eq('image', e.image.array[p],
                             env.ite(m, s['image'][p] * a, s['image'][p]),
                             tol=1e-3)
                v = e.variance.array[p]
                env.check_eq('variance', v, env.ite(
                    m, np.float64(np.inf), s['variance'][p]), tol=1e-3)
                b = env.ite(m, s['mask'][p] | bits, s['mask'][p])
                eb = ebits(p)
                env.check_eq('mask', e.mask.array[p],
                             env.ite(eb[0], b | eb[1], b))
    if ormasks is not None:
        for o, s in zip(ormasks, olds):
            for p in pixels(s.shape):
                b = env.ite(ap[p] < 1, s[p] | bits, s[p])
                eb = ebits(p)
                env.check_eq('or mask', o[p], env.ite(eb[0], b | eb[1], b))


def edge(env, dims, nband=1, noise=True, mfrac=True, nor=1, xy0=(0, 0),
         light=False):
    m = env.mod('metadetect.lsst.masking')
    l = L(env)
    mb, nb, mf, orm = _inputs(l, env, dims, nband, noise, mfrac, nor, xy0,
                              light)
    old = _snaps(mb, nb, mf)
    oold = None if orm is None else [o.copy() for o in orm]
    kw = {}
    if noise:
        kw['noise_mbexp'] = nb
    if mfrac:
        kw['mfrac_mbexp'] = mf
    if nor:
        kw['ormasks'] = orm
    m.apply_apodized_edge_masks_mbexp(mb, **kw)
    ap = _square(env, dims, 1.5)
    _check(env, (mb, nb, mf), old, orm, oold, ap, l.plane('APODIZED_EDGE'),
           lambda p: (False, 0))


def bright(env, dims, nband=1, noise=True, mfrac=True, nor=1, xy0=(0, 0),
           geom=None, nholes=1):
    """geom None: the apodization image itself is arbitrary (it is decided
    with the hole masks); else concrete holes [x, y, r] and nothing
    replaced"""
    m = env.mod('metadetect.lsst.masking')
    np = env.np
    l = L(env)
    mb, nb, mf, orm = _inputs(l, env, dims, nband, noise, mfrac, nor, xy0)
    old = _snaps(mb, nb, mf)
    oold = None if orm is None else [o.copy() for o in orm]
    n = nholes if geom is None else len(geom)
    info = np.zeros(n, dtype=[('ra', 'f8'), ('dec', 'f8'),
                              ('radius_pixels', 'f8')])
    wcs = mb.singles[0].getWcs()
    xm, ym, rm = np.zeros(n), np.zeros(n), np.zeros(n)
    for k in range(n):
        if geom is None:
            # far more than the size of the expansion
            x = env.real('x%d' % k, -40, 40)
            y = env.real('y%d' % k, -40, 40)
            r = env.real('r%d' % k, 0, 20)
        else:
            x, y, r = [np.float64(v) for v in geom[k]]
        s = wcs.pixelToSky(l.geom.Point2D(x + xy0[0], y + xy0[1]))
        info['ra'][k] = s.ra
        info['dec'][k] = s.dec
        info['radius_pixels'][k] = r
        xm[k], ym[k], rm[k] = x, y, r
    calls = []
    if geom is None:
        ap = env.arr_real('ap', dims, 0, 1)

        def fake(**kw):
            calls.append(kw)
            return ap.copy()
        env.patch('metadetect.masking', 'make_foreground_apodization_mask',
                  fake)
        if hasattr(m, 'make_foreground_apodization_mask'):
            env.patch('metadetect.lsst.masking',
                      'make_foreground_apodization_mask', fake)
    else:
        ap = env.mod('metadetect.masking').make_foreground_apodization_mask(
            ap_rad=1.5, xm=xm.copy(), ym=ym.copy(), rm=rm.copy(), dims=dims,
            symmetrize=False)
    i0 = {k: info[k].copy() for k in ('ra', 'dec', 'radius_pixels')}
    kw = {}
    if noise:
        kw['noise_mbexp'] = nb
    if mfrac:
        kw['mfrac_mbexp'] = mf
    if nor:
        kw['ormasks'] = orm
    m.apply_apodized_bright_masks_mbexp(mb, info, **kw)
    for k in i0:
        env.check_eq('catalog unchanged', info[k], i0[k])
    if geom is None:
        if not calls:
            return
        for kw in calls:
            for k, v in (('xm', xm), ('ym', ym), ('rm', rm)):
                env.check_eq('hole ' + k, kw[k], v)
            env.check('apodization scale', kw['ap_rad'] == 1.5)
            env.check('hole dims', tuple(kw['dims']) == tuple(dims)
                      and not kw['symmetrize'])

    def ebits(p):
        return (_inside(env, xm, ym, rm + 16, *p),
                l.plane('BRIGHT_EXPANDED'))
    _check(env, (mb, nb, mf), old, orm, oold, ap, l.plane('BRIGHT'), ebits)
