"""all of LSST metadetection and photometry (metadetect/lsst/metadetect.py,
photometry.py)"""
import copy

from .common import pixels
from .lcommon import L, snap
from .lmcal import BANDS, _code, _rot, _classify, _is, _target
from . import fgalsim
from .lmeas import _gauss, _moms

PSFF, EDGE = 2 ** 21, 2 ** 20


class Res:
    pass


class Flow:
    """data, and stand-ins that record what they are given"""

    def __init__(self, env, nband, dims, xy0, conf, fail, found, nsky,
                 mfrac, ormasks):
        self.env = env
        l = self.l = L(env)
        np = env.np
        self.nband, self.dims, self.xy0, self.conf = nband, dims, xy0, conf
        self.fake = fgalsim.make(env)
        env.patch('metadetect.lsst.metacal_exposures', 'galsim', self.fake)
        # weights of the bands are for others to check
        self.var = [np.float64([2., 1., 4., 8., 16.][b]) for b in range(nband)]
        if nband == 1:
            self.var = [env.real('var', 1, 16)]
        exps, nexps = [], []
        for b in range(nband):
            for k, (lst, nm) in enumerate(((exps, 'e'), (nexps, 'n'))):
                p = np.zeros((3, 3))
                p[0, 0] = 2.0 + b
                p[1, 1] = env.real('p%s%d' % (nm, b), 1, 10)
                e = l.anyexp('%s%d' % (nm, b), dims, xy0,
                             planes='i' if k else 'im', wcs=l.affine(x0=3),
                             psf=l.psf(p), band=BANDS[b])
                e.variance.array[:, :] = self.var[b]
                for i in (0, dims[0] - 1):
                    for j in (0, dims[1] - 1):
                        e.image.array[i, j] = _code(b, k)
                lst.append(e)
        self.mb, self.nmb = l.full(exps), l.full(nexps)
        self.psfs = [e.getPsf().computeKernelImage(None).array for e in exps]
        self.npsfs = [e.getPsf().computeKernelImage(None).array
                      for e in nexps]
        self.masks = [e.mask.array.copy() for e in exps]
        self.first = [[snap(e) for e in m.singles]
                      for m in (self.mb, self.nmb)]
        self.mf = self.mfmb = self.om = None
        if mfrac:
            self.mf = [env.real('mf%d' % b, 1 / 8, 1) for b in range(nband)]
            ms = []
            for b in range(nband):
                m = l.anyexp('m%d' % b, dims, xy0, planes='',
                             wcs=exps[b].getWcs(), psf=exps[b].getPsf(),
                             band=BANDS[b])
                m.image.array[:, :] = self.mf[b]
                ms.append(m)
            self.mfmb = l.full(ms)
        if ormasks:
            self.om = [env.arr_bv('om%d' % b, dims) for b in range(nband)]
        self.sky = [[env.real('sky%d%d' % (b, i), -10, 10)
                     for i in range(nsky)] for b in range(nband)]
        self.log, self.count = [], [0] * nband
        self.fits = []
        for b in range(nband):
            self.fits.append({
                'flags': env.int('pflags%d' % b, 0, 1) if b in fail else 0,
                'e': np.array([env.real('e%d%d' % (k, b), -.5, .5)
                               for k in (1, 2)]),
                'T': env.real('T%d' % b, 1 / 8, 4)})
        self.nfit = self.nskydet = 0
        self.found, self.dets, self.stamps, self.meas = found, [], [], []
        self.boxes = []
        h = l.hooks
        h.update(background=self.back, detection=self.detection,
                 deblend=self.deblend, measure=self.measure,
                 deconvolve=self.deconvolve, scarlet=self.scarlet,
                 update_footprints=lambda **k: None)
        env.mod('ngmix').hooks.update(
            gauss_target_psf=lambda psf, flux: self.fake.target(
                't', psf, flux),
            ellip_dilation=lambda e1, e2, T: 1.25 + e1 / 8 + e2 / 16 + T / 32,
            psf_runner_go=self.psf_go, bootstrap=self.boot,
            fitter_go=self.fit)

    def band_of(self, e):
        for k, x in enumerate(self.mb.singles):
            if x is e:
                return k

    def back(self, task, e):
        k = self.band_of(e)
        self.env.check('sky of the input', k is not None)
        v = self.sky[k][self.count[k]]
        self.count[k] += 1
        # a background that is not the same everywhere
        e.image.array[1, 1] -= v
        e.getMetadata()['BGMEAN'] = v

    def psf_go(self, runner, obs):
        b = self.nfit
        self.nfit += 1
        self.env.check_eq('psf of the input', obs.image, self.psfs[b],
                          tol=1e-4)
        self.log.append('psf')
        return self.fits[b]

    def detection(self, task, table, e):
        env, l = self.env, self.l
        th = self.thresh
        env.check_eq('threshold', task.config.thresholdValue, th)
        if self.band_of(e) is not None and self.nskydet < sum(
                len(x) for x in self.sky):
            # sky subtraction
            self.nskydet += 1
            return None
        k = len(self.dets)
        self.dets.append((e, e.image.array.copy()))
        f = self.found[k] if k < len(self.found) else 'some'
        if f == 'any':
            f = ['some', 'empty', 'none'][env.choose('found%d' % k, 3)]
        self.found = list(self.found) + ['some'] * (
            k + 1 - len(self.found))
        self.found[k] = f
        if f == 'none':
            return None
        x, y = self.xy0
        r = Res()
        s = l.source(100 + k, (x + 1, y + 1),
                     pix=[(x + i, y + j) for i in range(3) for j in range(3)])
        r.sources = l.table.SourceCatalog([s] if f == 'some' else [])
        self.last = (k, e, r.sources)
        return r

    def deblend(self, task, e, sources):
        self.env.check('deblends the detections', e is self.last[1]
                       and sources is self.last[2])
        self.log.append('sdss')

    def deconvolve(self, task, e, sources, band):
        r = Res()
        r.deconvolved = e
        return r

    def scarlet(self, task, m, d, s):
        self.env.check('deblends the detections', s is self.last[2])
        self.log.append('scarlet')
        r = Res()
        # nothing of other sources in the models
        r.scarletModelData = self.models()
        r.deblendedCatalog = s
        return r

    def models(self):
        return None

    def measure(self, task, source, e):
        self.env.check('measured where it is detected', e is self.last[1])
        x, y = self.xy0
        source.centroid = self.l.geom.Point2D(
            x + 1 + self.last[0] / 16, y + 1 - self.last[0] / 32)
        source.coord = self.mb.singles[0].getWcs().pixelToSky(
            source.centroid)

    def boot(self, mbobs, runner, psf_runner=None):
        np = self.env.np
        self.stamps.append((self.last[0], [o[0].image.copy() for o in mbobs]))
        for ol in mbobs:
            for o in ol:
                o.psf.meta['result'] = {'flags': 0, 'T': 2.0,
                                        'g': np.array([.125, .25])}
        r = _gauss(np, mbobs, True)
        return r

    def fit(self, fitter, obs, *a, **k):
        self.env.check_eq('weight function', fitter.fwhm, self.fwhm)
        return _moms(self.env.np, fitter, obs, True)


def _after(env, F, sky):
    """the input images less the sky"""
    out = []
    for b, e in enumerate(F.mb.singles):
        w = F.first[0][b]['image'].copy()
        if sky:
            w[1, 1] = w[1, 1] - sum(F.sky[b][:2])
        out.append(w)
        env.check_eq('input images', e.image.array, w)
        env.check_eq('input masks', e.mask.array, F.masks[b])
        env.check_eq('input variances', e.variance.array,
                     F.first[0][b]['variance'])
    for b, e in enumerate(F.nmb.singles):
        for n in ('image', 'variance', 'mask'):
            env.check_eq('noise kept', getattr(e, n).array,
                         F.first[1][b][n])
    return out


def _row(env, F, r, k, use, bad, size, det):
    """columns of the only object, detected in call k"""
    np = env.np
    nband = F.nband
    env.check('one row', len(r) == 1)
    if len(r) != 1:
        return
    x, y = F.xy0
    env.check_eq('col', r['col'][0], x + 1 + k / 16, tol=1e-3)
    env.check_eq('row', r['row'][0], y + 1 - k / 32, tol=1e-3)
    env.check_eq('stamp size', r['stamp_size'][0], size)
    env.check_eq('stamp flags', r['stamp_flags'][0],
                 EDGE if size > min(F.dims) else 0)
    if bad:
        env.check_eq('psf flags', r['psfrec_flags'][0], PSFF)
        env.check_eq('no psf', r['psfrec_T'][0], -9999.0)
        env.check_eq('psf number', r['psfrec_navg'][0], 0)
    else:
        ws = sum(1 / F.var[b] for b in use)
        env.check_eq('psf flags', r['psfrec_flags'][0], 0)
        env.check_eq('psf number', r['psfrec_navg'][0], len(use))
        m = [sum(v[b] / F.var[b] for b in use) / ws for v in (
            [f['T'] for f in F.fits], [f['e'][0] for f in F.fits],
            [f['e'][1] for f in F.fits])]
        env.check_eq('psf T', r['psfrec_T'][0], m[0], tol=1e-4)
        g1, g2 = env.mod('ngmix').shape.e1e2_to_g1g2(m[1], m[2])
        env.check_eq('psf g1', r['psfrec_g'][0, 0], g1, tol=1e-4)
        env.check_eq('psf g2', r['psfrec_g'][0, 1], g2, tol=1e-4)
    want = 0.0
    if F.mf is not None:
        want = sum(F.mf[b] / F.var[b] for b in range(nband)) / sum(
            1 / v for v in F.var)
    env.check_eq('masked fraction', r['mfrac'][0], want, tol=1e-4)
    o = 0
    for m in F.om or []:
        o = o | m[1, 1]
    env.check_eq('ormask', r['ormask'][0], o)
    m = 0
    for a in F.masks:
        m = m | a[1, 1]
    env.check_eq('bmask', r['bmask'][0], m & ~F.l.plane('DETECTED'))


def _same(env, a, b):
    """condition: all pixels are the same"""
    return env.And(*[env.eq(x, y) if hasattr(env, 'ENG') else
                     abs(x - y) <= 1e-2 * (1 + abs(y))
                     for x, y in zip(a.ravel(), b.ravel())])


def _weights(env, F, nband):
    return [1 / v for v in F.var]


def metadetect(env, nband=1, types=None, dims=(3, 3), xy0=(0, 0), conf=None,
               fail=(), found=('some', 'any', 'some'), mfrac=True,
               ormasks=True, stats=None, size=3):
    """everything, with one object for each shear"""
    conf = dict(conf or {})
    shear = conf.get('shear_bands')
    F = Flow(env, nband, dims, xy0, conf, fail, found,
             2 if conf.get('subtract_sky') else 0, mfrac, ormasks)
    F.thresh = 5.0
    F.fwhm = 2.0
    md = env.mod('metadetect.lsst.metadetect')
    np = env.np
    conf['stamp_size'] = size
    if 'thresh' in conf:
        del conf['thresh']
        F.thresh = env.real('thresh', 1, 100)
        conf['detect'] = {'thresholdValue': F.thresh}
    if 'fwhm' in conf:
        del conf['fwhm']
        F.fwhm = env.real('fwhm', 1, 8)
        conf['pgauss'] = {'fwhm': F.fwhm}
    if types is not None:
        conf.setdefault('metacal', {})['types'] = list(types)
    mine = copy.deepcopy(conf)
    kw = {}
    if mfrac:
        kw['mfrac_mbexp'] = F.mfmb
    if ormasks:
        kw['ormasks'] = F.om
    if stats:
        kw['get_psf_stats'] = True
    omk = [m.copy() for m in F.om or []]
    r = md.run_metadetect(F.mb, F.nmb, env.rng(), config=conf, **kw)
    ty = list(types or ['noshear', '1p', '1m'])
    env.check('shears', sorted(r) == sorted(
        ty + (['psf_stats'] if stats else [])))
    env.check('settings kept', _plain(conf) == _plain(mine))
    for m, k in zip(F.om or [], omk):
        env.check_eq('ormasks kept', m, k)
    data = _after(env, F, conf.get('subtract_sky'))
    env.check('psfs are fit once', F.nfit <= nband)
    bad = env.possible(env.Or(*[F.fits[b]['flags'] != 0 for b in fail])) \
        if fail else False
    use = [b for b in range(nband) if not shear or BANDS[b] in shear]
    if stats:
        st = r['psf_stats']
        env.check_eq('psf flags', st['flags'], PSFF if bad else 0)
        env.check_eq('psf number', st['navg'], 0 if bad else len(use))
    # the kernels of the metacal images
    kern = None
    if conf.get('metacal', {}).get('reconv_type', 'fitgauss') == 'fitgauss' \
            and not bad:
        kern = np.zeros(nband, dtype=[('e1', 'f8'), ('e2', 'f8'),
                                      ('T', 'f8')])
        for b in range(nband):
            kern['e1'][b], kern['e2'][b] = F.fits[b]['e']
            kern['T'][b] = F.fits[b]['T']
    D = _classify(env, F.fake)
    final = {}
    for t in ty:
        final[t] = []
        for b in range(nband):
            got = []
            for k in (0, 1):
                ds = [d for d in D if d['tag'] == _code(b, k)
                      and _is(d['shear'], t)]
                env.check('drawn once', len(ds) == 1)
                if len(ds) != 1:
                    return
                src = data[b] if k == 0 else F.first[1][b]['image']
                env.check_eq('sheared image', ds[0]['im'].atom[1],
                             _rot(env, src, k))
                _target(env, ds[0]['rest'], kern, b,
                        (F.psfs, F.npsfs)[k][b])
                got.append(_rot(env, ds[0]['array'], 3 * k))
            final[t].append(got[0] + got[1])
    dbl = [x for x in F.log if x in ('sdss', 'scarlet')]
    env.check('deblender', dbl == [conf.get('deblender', 'sdss')] * len(
        [k for k in range(len(F.dets)) if F.found[k] != 'none']))
    env.check('as many detections as shears', len(F.dets) == len(ty))
    if len(F.dets) != len(ty):
        return
    empty = [t for t in ty if r[t] is None]
    lost = [k for k in range(len(ty)) if F.found[k] != 'some']
    env.check('nothing found', len(empty) == len(lost))
    left = set(range(len(ty)))
    for t in ty:
        if r[t] is None:
            continue
        cand = [k for k in sorted(left) if k not in lost and abs(
            float(r[t]['col'][0]) - (xy0[0] + 1 + k / 16)) < 1e-3]
        env.check('detections of one shear', len(cand) == 1)
        if len(cand) != 1:
            return
        k, = cand
        left.discard(k)
        _row(env, F, r[t], k, use, bad, size, None)
        _det(env, F, k, final[t])
        sts = [s for n, s in F.stamps if n == k]
        env.check('measured once', len(sts) == (size <= min(dims)))
        for s in sts:
            # gaussian fits are of the shear bands or of all
            for b, im in enumerate(s):
                ok = env.Or(*[_same(env, im, final[t][q][:3, :3])
                              for q in range(nband)])
                env.check('stamps of this shear', ok)
    if len(left) == 1 and len(empty) == 1:
        _det(env, F, left.pop(), final[empty[0]])


def _det(env, F, k, ims):
    """the detection image of call k is made of these images"""
    w = [1 / v for v in F.var]
    ws = sum(w)
    if len(ims) == 1:
        env.check_eq('detected on this shear', F.dets[k][1], ims[0])
    else:
        for p in pixels(F.dims):
            env.check_eq('detected on this shear', F.dets[k][1][p],
                         sum(a[p] * x for a, x in zip(ims, w)) / ws,
                         tol=1e-1)


def _plain(c):
    return {k: _plain(v) if isinstance(v, dict) else str(v)
            for k, v in c.items()}


def photometry(env, nband=1, dims=(3, 3), xy0=(0, 0), conf=None, fail=(),
               found=('any',), mfrac=True, ormasks=True, size=3):
    """measurements of the images as they are"""
    conf = dict(conf or {})
    F = Flow(env, nband, dims, xy0, conf, fail, found,
             2 if conf.get('subtract_sky') else 0, mfrac, ormasks)
    F.thresh = 5.0
    F.fwhm = 2.0
    ph = env.mod('metadetect.lsst.photometry')
    shear = conf.get('shear_bands')
    conf['stamp_size'] = size
    if 'thresh' in conf:
        del conf['thresh']
        F.thresh = env.real('thresh', 1, 100)
        conf['detect'] = {'thresh': F.thresh}
    if 'fwhm' in conf:
        del conf['fwhm']
        F.fwhm = env.real('fwhm', 1, 8)
        conf['pgauss'] = {'fwhm': F.fwhm}
    mine = copy.deepcopy(conf)
    kw = {}
    if mfrac:
        kw['mfrac_mbexp'] = F.mfmb
    if ormasks:
        kw['ormasks'] = F.om
    r = ph.run_photometry(F.mb, env.rng(), config=conf, **kw)
    env.check('settings kept', _plain(conf) == _plain(mine))
    env.check('no shears', not F.fake.draws)
    data = _after(env, F, conf.get('subtract_sky'))
    bad = env.possible(env.Or(*[F.fits[b]['flags'] != 0 for b in fail])) \
        if fail else False
    use = [b for b in range(nband) if not shear or BANDS[b] in shear]
    env.check('one detection', len(F.dets) == 1)
    _det(env, F, 0, data)
    dbl = [x for x in F.log if x in ('sdss', 'scarlet')]
    env.check('deblender', dbl == (
        [] if F.found[0] == 'none' else [conf.get('deblender', 'sdss')]))
    if F.found[0] != 'some':
        env.check('nothing found', r is None)
        return
    env.check('found', r is not None)
    if r is None:
        return
    _row(env, F, r, 0, use, bad, size, None)
    for n, s in F.stamps:
        for im in s:
            env.check('stamps of the data', env.Or(*[
                _same(env, im, d[:3, :3]) for d in data]))
    env.check('measured once', len(F.stamps) == (size <= min(dims)))
