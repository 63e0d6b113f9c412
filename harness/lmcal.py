"""metacal images of LSST exposures (metadetect/lsst/metacal_exposures.py)"""
from .common import pixels  # noqa
from .lcommon import L, snap
from . import fgalsim

SH = {'noshear': None, '1p': (.01, 0.), '1m': (-.01, 0.), '2p': (0., .01),
      '2m': (0., -.01)}
BANDS = ['g', 'r', 'i', 'i2', 'z', 'y']


def jac_at(env, wcs, x, y):
    """dudx, dudy, dvdx, dvdy at a position, in arcsec"""
    m = wcs.linearizePixelToSky(env.mod('lsst.geom').Point2D(x, y),
                                'arcseconds').getMatrix()
    return (m[1, 1], -m[1, 0], m[0, 1], -m[0, 0])


def cen_of(dims, xy0):
    return xy0[0] + dims[1] // 2, xy0[1] + dims[0] // 2


def _rot(env, a, k):
    """rotation by k*90 degrees, written out"""
    np = env.np
    for _ in range(k % 4):
        n, m = a.shape
        b = np.zeros((m, n))
        for i in range(m):
            for j in range(n):
                b[i, j] = a[j, m - 1 - i]
        a = b
    return a


def metacal(env, dims, nband=1, types=None, stats=True, xy0=(0, 0), psfdim=3,
            single=False, planes='iv', cls='ExposureF'):
    mc = env.mod('metadetect.lsst.metacal_exposures')
    ngmix = env.mod('ngmix')
    np = env.np
    l = L(env)
    fake = fgalsim.make(env)
    env.patch('metadetect.lsst.metacal_exposures', 'galsim', fake)
    ngmix.hooks.update(
        gauss_target_psf=lambda psf, flux: fake.target('t', psf, flux),
        ellip_dilation=lambda e1, e2, T: 1.25 + e1 / 8 + e2 / 16 + T / 32)
    exps, nexps, psfs = [], [], []
    wcss = []
    for b in range(nband):
        wcs = l.affine('w%d' % b, x0=3 + b)
        wcss.append(wcs)
        for k, (lst, nm) in enumerate(((exps, 'e'), (nexps, 'n'))):
            p = np.zeros((psfdim, psfdim))
            p[0, 0] = 2.0 + b
            p[0, 1] = -0.5
            p[psfdim // 2, psfdim // 2] = env.real('p%s%d' % (nm, b), 1, 10)
            psf = l.posPsf(p)
            e = l.anyexp('%s%d' % (nm, b), dims, xy0, planes=planes, vlo=1,
                         wcs=wcs, psf=psf, band=BANDS[b], cls=cls)
            # the corners tell which one it is
            for i in (0, dims[0] - 1):
                for j in (0, dims[1] - 1):
                    e.image.array[i, j] = _code(b, k)
            lst.append(e)
    if single:
        mb, nmb = exps[0], nexps[0]
    else:
        mb, nmb = l.full(exps), l.full(nexps)
    before = [[snap(e) for e in x] for x in (exps, nexps)]
    st = None
    if stats:
        st = np.zeros(nband, dtype=[('e1', 'f8'), ('e2', 'f8'), ('T', 'f8')])
        for b in range(nband):
            st['e1'][b] = env.real('e1%d' % b, -1, 1)
            st['e2'][b] = env.real('e2%d' % b, -1, 1)
            st['T'][b] = env.real('T%d' % b, 1 / 8, 4)
    kw = {} if types is None else {'types': types}
    ty = types or ['noshear', '1p', '1m']
    if single:
        r, nr = mc.get_metacal_exps_fixnoise(
            mb, nmb, psf_stats=None if st is None else st[0], **kw)
        r = {t: [r[t]] for t in r}
        nr = {t: [nr[t]] for t in nr}
        src = ([mb], [nmb])
    else:
        r, nr = mc.get_metacal_mbexps_fixnoise(mb, nmb, psf_stats=st, **kw)
        env.check('bands', all(tuple(r[t].bands) == tuple(BANDS[:nband])
                               for t in r))
        r = {t: list(r[t].singles) for t in r}
        nr = {t: list(nr[t].singles) for t in nr}
        src = (mb.singles, nmb.singles)
    env.check('types', sorted(r) == sorted(ty) and sorted(nr) == sorted(ty))
    # the input is not modified
    for k in (0, 1):
        for b in range(nband):
            for n in ('image', 'variance', 'mask'):
                env.check_eq('input unchanged', getattr(
                    src[k][b], n).array, before[k][b][n])
    D = _classify(env, fake)
    cx, cy = cen_of(dims, xy0)
    for b in range(nband):
        jac = jac_at(env, wcss[b], cx, cy)
        for k in (0, 1):
            e0 = (exps, nexps)[k][b]
            psf = e0.getPsf().at(cx, cy)
            im0 = _rot(env, before[k][b]['image'], k)
            for t in ty:
                ds = [d for d in D if d['tag'] == _code(b, k)
                      and _is(d['shear'], t)]
                env.check('drawn once', len(ds) == 1)
                if len(ds) != 1:
                    continue
                d = ds[0]
                env.check('double precision', d['dtype'] == 'float64')
                env.check('no pixel', d['method'] == 'no_pixel')
                for a, w in ((d['wcs'], 'drawn'), (d['im'].atom[2], 'image'),
                             (d['psf'].atom[2], 'psf')):
                    _jac(env, w + ' scale', a, jac)
                env.check_eq('image', d['im'].atom[1], im0)
                env.check_eq('deconvolved psf', d['psf'].atom[1], psf)
                env.check('deconvolved once', d['im'].power == 1
                          and d['psf'].power == -1
                          and _is(d['psf'].ops, t))
                _target(env, d['rest'], st, b, psf)
                out = _rot(env, d['array'], 3 * k)
                d['out'] = out
                D_t = nr[t][b] if k else r[t][b]
                if k:
                    env.check_eq('noise image', D_t.image.array, out)
                    env.check_eq('noise variance', D_t.variance.array,
                                 before[1][b]['variance'])
                else:
                    data = out
                    nd = [q for q in D if q['tag'] == _code(b, 1)
                          and _is(q['shear'], t)]
                    if len(nd) != 1:
                        env.check('noise drawn once', False)
                        continue
                    env.check_eq('image and fixed noise', D_t.image.array,
                                 data + _rot(env, nd[0]['array'], 3))
                    env.check_eq('variance doubled', D_t.variance.array,
                                 before[0][b]['variance'] * 2)
                env.check_eq('mask kept', D_t.mask.array,
                             before[k][b]['mask'])
                env.check('wcs kept', D_t.getWcs() is wcss[b])
                env.check('filter kept',
                          D_t.getFilter().bandLabel == BANDS[b])
                env.check('position kept', D_t.getBBox() == e0.getBBox())
                # the psf of the new image is what was drawn
                ps = D_t.getPsf().computeKernelImage(None).array
                cand = [q for q in fake.draws if len(q['obj'].factors) == 1
                        and q['array'].shape == ps.shape]
                ok = []
                for q in cand:
                    ok.append(_same(env, q['array'], ps))
                    if ok[-1]:
                        env.check_eq('psf', ps, q['array'])
                env.check('psf is drawn', any(ok))
                for q, o in zip(cand, ok):
                    if o:
                        _target(env, q['obj'].factors, st, b, psf)
                        _jac(env, 'psf scale', q['wcs'], jac)
                        env.check('no pixel', q['method'] == 'no_pixel')


def _same(env, a, b):
    return float(a[0, 0]) == float(b[0, 0])


def _code(b, k):
    return float(5000 + 2 * b + k)


def _jac(env, label, w, jac):
    for n, v in zip(('dudx', 'dudy', 'dvdx', 'dvdy'), jac):
        env.check_eq(label, getattr(w, n), v)


def _is(ops, t):
    if SH[t] is None:
        return len(ops) == 0
    return len(ops) == 1 and ops[0][0] == 'shear' and all(
        abs(float(x) - y) < 1e-12 for x, y in zip(ops[0][1:], SH[t]))


def _classify(env, fake):
    out = []
    for d in fake.draws:
        fs = d['obj'].factors
        ims = [f for f in fs if f.atom[0] == 'image']
        if not ims:
            continue
        pos = [f for f in ims if float(f.atom[1][0, 0]) >= 5000]
        neg = [f for f in ims if float(f.atom[1][0, 0]) < 5000]
        env.check('image and psf', len(pos) == 1 and len(neg) == 1)
        if len(pos) != 1 or len(neg) != 1:
            continue
        out.append(dict(d, im=pos[0], psf=neg[0], shear=pos[0].ops,
                        tag=float(pos[0].atom[1][0, 0]),
                        rest=[f for f in fs if f.atom[0] != 'image']))
    return out


def _target(env, factors, st, b, psf):
    """a round gaussian, dilated"""
    np = env.np
    env.check('one kernel', len(factors) == 1)
    if len(factors) != 1:
        return
    f = factors[0]
    env.check('kernel', f.power == 1 and f.atom[0] == (
        'gauss' if st is not None else 'target'))
    env.check('dilated once', len(f.ops) == 1 and f.ops[0][0] == 'dilate')
    if len(f.ops) == 1:
        env.check_eq('dilated', f.ops[0][1], 1.02, tol=1e-9)
    env.check_eq('flux', f.atom[2], psf.sum())
    if st is not None:
        e1, e2, T = [st[n][b] for n in ('e1', 'e2', 'T')]
        s2 = T * (1.25 + e1 / 8 + e2 / 16 + T / 32) / 2
        env.check_eq('size', f.atom[1] * f.atom[1], s2)
        env.check('positive size', f.atom[1] > 0)
    else:
        p = f.atom[1].factors
        env.check('size from the psf', len(p) == 1 and not p[0].ops
                  and p[0].power == 1)
        env.check_eq('of the psf', p[0].atom[1], psf)


def mismatch(env, nband, n):
    """psf measurements must be there for each band"""
    mc = env.mod('metadetect.lsst.metacal_exposures')
    np = env.np
    l = L(env)
    fake = fgalsim.make(env)
    env.patch('metadetect.lsst.metacal_exposures', 'galsim', fake)
    ngmix = env.mod('ngmix')
    ngmix.hooks.update(
        gauss_target_psf=lambda psf, flux: fake.target('t', psf, flux),
        ellip_dilation=lambda e1, e2, T: 1.25)
    mb = l.full([l.anyexp('e%d' % b, (2, 2), planes='', wcs=l.affine(),
                          psf=l.posPsf(np.ones((1, 1))), band=BANDS[b])
                 for b in range(nband)])
    st = np.zeros(n, dtype=[('e1', 'f8'), ('e2', 'f8'), ('T', 'f8')])
    for b in range(n):
        st['T'][b] = env.real('T%d' % b, 1 / 8, 4)
    try:
        mc.get_metacal_mbexps(mb, psf_stats=st)
        ok = True
    except AssertionError:
        ok = False
    env.check('accepted iff it matches', ok == (nband == n))
    types = ['noshear', ['1x', '3p', '', 'NOSHEAR'][env.choose('type', 4)]]
    try:
        mc.get_metacal_mbexps(mb, types=types, psf_stats=st if ok else None)
        ok = True
    except ValueError:
        ok = False
    env.check('unknown type is refused', not ok)
