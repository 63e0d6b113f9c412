"""masks and their corrections (metadetect/masking.py, interpolate.py)"""
from .common import (make_mbobs, snap, pixels, stub_interp, expected_interp,
                     isolated, check_fill)


def _holes(env, n, dims, ints=False):
    np = env.np
    xm = env.arr_real('xm', n, -20, 20)
    ym = env.arr_real('ym', n, -20, 20)
    rm = env.arr_real('rm', n, 0, 20)
    return xm, ym, rm


def _inside(env, xm, ym, rm, i, j):
    """strictly inside some hole (row i, col j)"""
    return env.Or(*[
        env.lt_strict((ym[k] - i) ** 2 + (xm[k] - j) ** 2, rm[k] ** 2)
        for k in range(len(xm))])


def _rot(n, i, j):
    """the pixel that the 90 degree rotation brings to (i, j)"""
    return j, n - 1 - i


def bmask(env, dims, nholes, sym):
    m = env.mod('metadetect.masking')
    np = env.np
    xm, ym, rm = _holes(env, nholes, dims)
    k = env.choose('bit', 3)
    flag = [1, 2 ** 13, 2 ** 30][k]
    out = m.make_foreground_bmask(xm=xm, ym=ym, rm=rm, dims=dims,
                                  symmetrize=sym, mask_bit_val=flag)
    env.shape_is('shape', out, dims)
    for i, j in pixels(dims):
        c = _inside(env, xm, ym, rm, i, j)
        if sym:
            c = env.Or(c, _inside(env, xm, ym, rm, *_rot(dims[0], i, j)))
        env.check_eq('mask pixel', out[i, j], env.ite(c, flag, 0))


def kern(env, x, m, h):
    y = (x - m) / h + 3
    one = env.np.float64(1)
    p = (-5 * y ** 7 * one / 69984 + 7 * y ** 5 * one / 2592
         - 35 * y ** 3 * one / 864 + 35 * y * one / 96 + one / 2)
    return env.ite(y < -3, 0 * one, env.ite(y > 3, one, p))


def apmask(env, dims, nholes, sym, h):
    m = env.mod('metadetect.masking')
    np = env.np
    xm, ym, rm = _holes(env, nholes, dims)
    if h is None:
        h = env.real('h', 1 / 4, 4)
    else:
        h = np.float64(h)
    out = m.make_foreground_apodization_mask(
        xm=xm, ym=ym, rm=rm, dims=dims, symmetrize=sym, ap_rad=h)
    env.shape_is('shape', out, dims)

    def one(i, j):
        v = np.float64(1)
        for k in range(nholes):
            d2 = (j - xm[k]) ** 2 + (i - ym[k]) ** 2
            v = v * env.ite(env.lt_strict(d2, rm[k] ** 2),
                            kern(env, np.sqrt(d2), rm[k], h), np.float64(1))
        return v
    for i, j in pixels(dims):
        v = one(i, j)
        if sym:
            v = v * one(*_rot(dims[0], i, j))
        env.check_eq('apodization value', out[i, j], v)


def apcentre(env, dims, h):
    """no apodization outside of the holes, zero deep inside, in [0, 1]"""
    m = env.mod('metadetect.masking')
    np = env.np
    xm, ym, rm = _holes(env, 1, dims)
    out = m.make_foreground_apodization_mask(
        xm=xm, ym=ym, rm=rm, dims=dims, symmetrize=False, ap_rad=np.float64(h))
    for i, j in pixels(dims):
        d2 = (ym[0] - i) ** 2 + (xm[0] - j) ** 2
        env.check('one outside', env.Implies(
            env.Not(env.lt_strict(d2, rm[0] ** 2)), out[i, j] == 1))
        env.check('zero deep inside', env.Implies(
            env.And(rm[0] > 6 * h + 1 / 64,
                    env.lt_strict(d2, (rm[0] - 6 * h - 1 / 64) ** 2)),
            out[i, j] == 0))


def _square(env, dims, h):
    """the documented edge apodization"""
    rng = int(6 * h + 0.5)
    np = env.np
    h = np.float64(h)
    one = np.float64(1)

    def edge(p, n):
        v = one
        for d in (p, n - 1 - p):
            if d <= rng:
                v = v * kern(env, np.float64(d), np.float64(rng), h)
        return v
    return {(i, j): edge(i, dims[0]) * edge(j, dims[1])
            for i, j in pixels(dims)}


def _mbobs(env, dims, nband, nepoch, mfrac, wmin=0):
    mb = make_mbobs(env, dims, nband, nepoch, mfrac=mfrac, wmin=wmin)
    return mb, [[snap(o) for o in ol] for ol in mb]


def edge_corr(env, dims, h, nband=1, nepoch=1, mfrac=True, bit=2 ** 28):
    """apodization of the image edges"""
    m = env.mod('metadetect.masking')
    mb, s0 = _mbobs(env, dims, nband, nepoch, mfrac)
    ap = _square(env, dims, h)
    m.apply_apodization_corrections(mbobs=mb, ap_rad=env.np.float64(h),
                                    mask_bit_val=bit)
    for ol, sl in zip(mb, s0):
        for o, s in zip(ol, sl):
            _check_ap(env, o, s, ap, dims, bit)


def _check_ap(env, o, s, ap, dims, bit):
    env.check('fields', o.has_mfrac() == ('mfrac' in s))
    for p in pixels(dims):
        a = ap[p]
        env.check_eq('image', o.image[p], s['image'][p] * a)
        env.check_eq('noise', o.noise[p], s['noise'][p] * a)
        msk = a < 1
        env.check_eq('bmask', o.bmask[p],
                     env.ite(msk, s['bmask'][p] | bit, s['bmask'][p]))
        env.check_eq('weight', o.weight[p],
                     env.ite(msk, env.np.float64(0), s['weight'][p]))
        if 'mfrac' in s:
            env.check_eq('mfrac', o.mfrac[p],
                         env.ite(msk, env.np.float64(1), s['mfrac'][p]))


def fg_apodize(env, dims, nband=1, nepoch=1, mfrac=True, sym=False, expand=0,
               geom=None):
    """geom None: the apodization image itself is arbitrary (it is decided
    separately); else a concrete hole (x, y, r, h) and nothing replaced"""
    m = env.mod('metadetect.masking')
    np = env.np
    mb, s0 = _mbobs(env, dims, nband, nepoch, mfrac)
    calls = []
    if geom is None:
        xm, ym, rm = _holes(env, 1, dims)
        h = env.real('h', 1 / 4, 4)
        ap = env.arr_real('ap', dims, 0, 1)

        def fake(**kw):
            calls.append(kw)
            return ap.copy()
        env.patch('metadetect.masking', 'make_foreground_apodization_mask',
                  fake)
    else:
        xm, ym, rm = [np.array([np.float64(v)]) for v in geom[:3]]
        h = np.float64(geom[3])
        ap = m.make_foreground_apodization_mask(
            ap_rad=h, xm=xm, ym=ym, rm=rm, dims=dims, symmetrize=sym)
    if expand:
        expand = env.real('expand', 0, 5)
    bit, ebit = 2 ** 13, 2 ** 14
    m.apply_foreground_masking_corrections(
        mbobs=mb, xm=xm, ym=ym, rm=rm, method='apodize',
        mask_expand_rad=expand, mask_bit_val=bit, expand_mask_bit_val=ebit,
        interp_bit_val=1, symmetrize=sym, ap_rad=h, iso_buff=1,
        rng=env.rng())
    if geom is None:
        if not calls:
            # computed in some other way: covered by the concrete geometries
            return
        for kw in calls:
            for k, v in (('xm', xm), ('ym', ym), ('rm', rm), ('ap_rad', h)):
                env.check_eq('hole ' + k, kw[k], v)
            env.check('hole dims', tuple(kw['dims']) == tuple(dims)
                      and kw['symmetrize'] == sym)
    for ol, sl in zip(mb, s0):
        for o, s in zip(ol, sl):
            s = dict(s)
            s['bmask'] = _expand(env, s['bmask'], xm, ym, rm, expand, ebit,
                                 dims, sym)
            _check_ap(env, o, s, ap, dims, bit)


def _expand(env, bm, xm, ym, rm, expand, ebit, dims, sym):
    bm = bm.copy()
    for i, j in pixels(dims):
        c = _inside(env, xm, ym, rm + expand, i, j)
        if sym:
            c = env.Or(c, _inside(env, xm, ym, rm + expand,
                                  *_rot(dims[0], i, j)))
        c = env.And(c, expand > 0)
        bm[i, j] = env.ite(c, bm[i, j] | ebit, bm[i, j])
    return bm


def fg_interp(env, dims, nband=1, nepoch=1, mfrac=True, sym=False, expand=0,
              nholes=1, noise=False, iso_buff=1, wmin=0):
    m = env.mod('metadetect.masking')
    np = env.np
    stub_interp(env)
    xm, ym, rm = _holes(env, nholes, dims)
    # which pixels are masked: decided by forking on each
    bad = [[False] * dims[1] for _ in range(dims[0])]
    for i, j in pixels(dims):
        c = _inside(env, xm, ym, rm, i, j)
        if sym:
            c = env.Or(c, _inside(env, xm, ym, rm, *_rot(dims[0], i, j)))
        bad[i][j] = env.fork(c)
    mb, s0 = _mbobs(env, dims, nband, nepoch, mfrac, wmin)
    anybad = any(any(r) for r in bad)
    allbad = all(all(r) for r in bad)
    good = [p for p in pixels(dims) if not bad[p[0]][p[1]]]
    if good:
        # some unmasked data in every image
        for sl in s0:
            for s in sl:
                env.assume(env.Or(*[s['weight'][p] > 0 for p in good]))
    if expand:
        expand = env.real('expand', 0, 5)
    bit, ebit, ibit = 2 ** 13, 2 ** 14, 2 ** 15
    m.apply_foreground_masking_corrections(
        mbobs=mb, xm=xm, ym=ym, rm=rm,
        method='interp-noise' if noise else 'interp',
        mask_expand_rad=expand, mask_bit_val=bit, expand_mask_bit_val=ebit,
        interp_bit_val=ibit, symmetrize=sym, ap_rad=np.float64(1),
        iso_buff=iso_buff, rng=env.rng())
    draws = env.draws()
    iso = isolated(bad, iso_buff) if noise and good else []
    fill = {}
    for ol, sl in zip(mb, s0):
        for o, s in zip(ol, sl):
            ebm = _expand(env, s['bmask'], xm, ym, rm, expand, ebit, dims,
                          sym)
            wg = [s['weight'][p] for p in good]
            for p in pixels(dims):
                b = bad[p[0]][p[1]]
                one, zero = np.float64(1), np.float64(0)
                env.check_eq('weight', o.weight[p],
                             zero if b else s['weight'][p])
                bits = 0 if not b else (bit if allbad else bit | ibit)
                env.check_eq('bmask', o.bmask[p], ebm[p] | bits)
                if mfrac:
                    env.check_eq('mfrac', o.mfrac[p],
                                 one if b else s['mfrac'][p])
                if not b or allbad:
                    env.check_eq('image kept', o.image[p], s['image'][p])
                    env.check_eq('noise kept', o.noise[p], s['noise'][p])
            if anybad and not allbad:
                for pl in ('image', 'noise'):
                    got = getattr(o, pl)
                    vals = {p: got[p] for p in iso}
                    exp = expected_interp(env, s[pl], bad, 4, iso, vals)
                    for p, v in exp.items():
                        env.check_eq(pl + ' interpolated', got[p], v)
                if iso:
                    # filled with noise of the median variance
                    med = np.median(np.array([w for w in wg if env.fork(
                        w > 0)]))
                    check_fill(env, 'noise fill', [
                        getattr(o, pl)[p] for pl in ('image', 'noise')
                        for p in iso], draws, 1 / np.sqrt(med))


def interp(env, dims, fill=False, buff=4, iso_buff=1, maxfrac=None,
           xvals=False):
    """interpolate_image_at_mask"""
    m = env.mod('metadetect.interpolate')
    np = env.np
    stub_interp(env)
    bad = [[env.fork(env.bool('bad_%d_%d' % (i, j))) for j in range(dims[1])]
           for i in range(dims[0])]
    image = env.arr_real('im', dims, -1000, 1000)
    nbad = sum(sum(r) for r in bad)
    npix = dims[0] * dims[1]
    good = [p for p in pixels(dims) if not bad[p[0]][p[1]]]
    im0 = image.copy()
    mask = np.zeros(dims, dtype='?')
    for i, j in pixels(dims):
        mask[i, j] = bad[i][j]
        if bad[i][j]:
            # what is in a bad pixel must not matter
            image[i, j] = np.nan
    kw = {}
    if maxfrac is not None:
        kw['maxfrac'] = maxfrac
    w = env.real('w', 1 / 64, 64)
    if fill:
        kw.update(fill_isolated_with_noise=True, weight=w, rng=env.rng())
    out = m.interpolate_image_at_mask(
        image=image, bad_msk=mask, buff=buff, iso_buff=iso_buff, **kw)
    mf = 0.9 if maxfrac is None else maxfrac
    env.check('none iff too much is masked',
              (out is None) == (nbad > mf * npix or nbad == npix))
    for i, j in pixels(dims):
        env.check('mask argument unchanged', bool(mask[i, j]) == bad[i][j])
        if not bad[i][j]:
            env.check_eq('image argument unchanged', image[i, j], im0[i, j])
    if out is None:
        return
    iso = isolated(bad, iso_buff) if fill else []
    env.check('new array', out is not image)
    env.shape_is('shape', out, dims)
    for p in good:
        env.check_eq('good pixels kept', out[p], im0[p])
    vals = {p: out[p] for p in iso}
    for p, v in expected_interp(env, im0, bad, buff, iso, vals).items():
        env.check_eq('interpolated', out[p], v)
    if iso:
        check_fill(env, 'noise fill', [out[p] for p in iso], env.draws(),
                   1 / np.sqrt(w))
