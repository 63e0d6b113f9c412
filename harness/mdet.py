"""the whole pipeline: metadetect.metadetect, mfrac"""
import copy
import itertools

from .common import pixels

TYPES = ['noshear', '1p', '1m', '2p', '2m']
SXDT = [('number', 'i4'), ('x', 'f8'), ('y', 'f8'), ('iso_radius', 'f4')]


def _conf(kw):
    c = {
        'metacal': {'use_noise_image': True, 'psf': 'fitgauss'},
        'meds': {'box_type': 'iso_radius', 'rad_min': 1, 'rad_fac': 1,
                 'box_padding': 0, 'min_box_size': 2, 'max_box_size': 2},
        'model': 'wmom', 'weight': {'fwhm': 1.2},
    }
    c.update(kw or {})
    if 'fitters' in c:
        del c['model'], c['weight']
    return c


def _image(env, code, dims, weight=None, bmask=None, **kw):
    """an observation whose image tells what it is"""
    ngmix = env.mod('ngmix')
    np = env.np
    jac = ngmix.Jacobian(row=1.25, col=.5, dudrow=.25, dudcol=.5,
                         dvdrow=.5, dvdcol=-.25)
    psf = ngmix.Observation(np.zeros((1, 1)) + code / 4096,
                            jacobian=ngmix.DiagonalJacobian(scale=.25, row=0,
                                                            col=0))
    if weight is None:
        weight = np.ones(dims) * 2.0
    if bmask is None:
        bmask = np.zeros(dims, dtype='i4')
    return ngmix.Observation(np.zeros(dims) + code, weight=weight, psf=psf,
                             bmask=bmask, jacobian=jac,
                             ignore_zero_weight=False, **kw)


def _mb(env, obss):
    ngmix = env.mod('ngmix')
    mb = ngmix.MultiBandObsList()
    for o in obss:
        ol = ngmix.ObsList()
        ol.append(o)
        mb.append(ol)
    return mb


def _code(key, t, b):
    """images of colour key, metacal type and band"""
    return float(1 + b + 8 * (1 + (TYPES.index(t) if t in TYPES else 5))
                 + 64 * key)


def _flux(code):
    return 10.0 + code


def _block(dims, i, j):
    return (i // 2) * ((dims[1] + 1) // 2) + j // 2


class Setup(object):
    """stand-ins for metacal, detection, fits of psfs and objects"""
    def __init__(self, env, dims, nband, types=TYPES, objs=None, mcal_fail=(),
                 psf_fail=(), blocks=False):
        self.env = env
        self.dims = dims
        self.blocks = blocks
        self.nband = nband
        np = env.np
        ngmix = env.mod('ngmix')
        self.ngmix = ngmix
        self.mcal, self.det, self.psf, self.fits = [], [], [], []
        self.objs = objs or {}
        self.types = types
        self.orig = {}
        self.pres = {}
        sxd = env.mod('sxdes')

        def metacal(mbobs, rng, kw):
            key = self.key_of(mbobs)
            self.mcal.append((key, rng, kw))
            if key in mcal_fail:
                raise ngmix.gexceptions.BootPSFFailure('x')
            return {t: _mb(env, [self.sheared(_code(key, t, b))
                                 for b in range(nband)]) for t in types}

        def psf_go(runner, psf):
            v = float(psf.image[0, 0]) * 4096
            key, b = int(v) // 64, (int(v) % 64) - 1
            self.psf.append((key, b))
            if (key, b) in psf_fail:
                return {'flags': 8}
            return self.pres[key, b]

        def run_sep(**k):
            # the type is known from the image
            t = TYPES[int(k['image'][0, 0]) % 64 // 8 - 1]
            self.det.append((t, k))
            o = self.objs.get(t, [])
            a = np.zeros(len(o), dtype=SXDT)
            for i, (y, x) in enumerate(o):
                a['y'][i] = y
                a['x'][i] = x
                a['number'][i] = i + 1
                a['iso_radius'][i] = 1
            return a, np.zeros(dims, dtype='i4')

        def go(fitter, obs, *a, **kw):
            im = obs.image
            if im.shape == (1, 1):
                return self.moms(float(im[0, 0]) * 4096, True)
            code = max(float(im[i, j]) for i, j in pixels(im.shape))
            self.fits.append((code, fitter))
            return self.moms(code, False)

        def admom(runner, obs):
            r = {'flags': 0, 'T_flags': 0, 'T': 1.5, 'T_err': .5, 's2n': 20.,
                 'e': np.array([.1, .2]), 'e_cov': np.eye(2)}
            return r
        ngmix.hooks.update(get_all_metacal=metacal, psf_runner_go=psf_go,
                           fitter_go=go, runner_go=admom,
                           flags_str=lambda v: 'x')
        sxd.hooks['run_sep'] = run_sep

    def sheared(self, code):
        o = _image(self.env, code, self.dims)
        if self.blocks:
            # the values tell which block of 2x2 pixels it is as well
            im = o.image.copy()
            for i, j in pixels(self.dims):
                im[i, j] = code + 4096 * _block(self.dims, i, j)
            o.set_image(im)
        return o

    def moms(self, code, psf):
        np = self.env.np
        s = np.array([0., 0., .25, .5, 4., 8. if psf else _flux(code)])
        return {'flags': 0, 'flagstr': '', 'sums': s, 'sums_cov': np.eye(6),
                'flux': _flux(code), 'flux_err': 2.0, 'flux_flags': 0,
                'pars': s, 'T': .5}

    def key_of(self, mbobs):
        return self._keys[id(mbobs)]

    def inputs(self, key=0, **planes):
        """the input images of a colour"""
        env = self.env
        np = env.np
        obss = []
        for b in range(self.nband):
            kw = {k: v[b] for k, v in planes.items() if v[b] is not None}
            if 'ormask' not in kw:
                kw['ormask'] = np.zeros(self.dims, dtype='i4')
            obss.append(_image(env, float(64 * key + b + 1), self.dims, **kw))
            if (key, b) not in self.pres:
                self.pres[key, b] = {
                    'flags': 0, 'T': .5 + b, 'e': np.array([.1, .25 * b])}
        mb = _mb(env, obss)
        self.orig[key] = mb
        if not hasattr(self, '_keys'):
            self._keys = {}
        self._keys[id(mb)] = key
        return mb


def nothing(env, dims, nband, what, nodet=5, types=None, mcal_fail=False,
            ndet=0, combs=None):
    """when there is no result at all"""
    md = env.mod('metadetect.metadetect')
    np = env.np
    S = Setup(env, dims, nband, types=types or TYPES,
              objs={t: [(1., 1.)] * ndet for t in TYPES},
              mcal_fail=[0] if mcal_fail else ())
    w, bm, mf = [], [], []
    for b in range(nband):
        n = 'b%d' % b
        w.append(env.arr_real(n + '_w', dims, 0, 100) if 'w' in what else
                 np.ones(dims) * (2.0 + b))
        bm.append(env.arr_bv(n + '_bm', dims, bits=4) if 'b' in what else
                  np.zeros(dims, dtype='i4'))
        mf.append(env.arr_real(n + '_mf', dims, 0, 1)
                  if what.count('m') > b else None)
    mb = S.inputs(weight=w, bmask=bm, mfrac=mf)
    conf = _conf({'nodet_flags': nodet})
    if types:
        conf['metacal']['types'] = types
    kw = {} if combs is None else dict(
        shear_band_combs=[list(c) for c in combs])
    r = md.do_metadetect(conf, mb, env.rng(), **kw)
    zero = env.Or(*[env.And(*[w[b][p] == 0 for p in pixels(dims)])
                    for b in range(nband)])
    masked = env.Or(*[env.And(*[(bm[b][p] & nodet) != 0
                                for p in pixels(dims)])
                      for b in range(nband)])
    if env.possible(env.Or(zero, masked)):
        env.check('nothing to measure', r is None)
        env.check('nothing is done', not S.mcal and not S.det)
        return
    if 'm' in what:
        med = []
        for b in range(nband):
            # one pixel images when weights are arbitrary
            med.append(w[b][0, 0] if 'w' in what else np.float64(2.0 + b))
        full = []
        for p in pixels(dims):
            s = sum(med[b] * mf[b][p] for b in range(nband)
                    if mf[b] is not None)
            full.append(s >= sum(med))
        if env.possible(env.And(*full)):
            env.check('all is masked', r is None)
            env.check('nothing is done', not S.mcal and not S.det)
            return
    if mcal_fail:
        env.check('metacal failed', r is None and not S.det)
        return
    env.check('a result', r is not None)
    env.check('a dict', isinstance(r, dict) and sorted(r)
              == sorted(types or TYPES))
    for t in (types or TYPES):
        if ndet:
            env.check('measured', r[t] is not None and r[t].size == ndet)
        else:
            env.check('no objects', r[t] is None)


def _str(bands):
    return ''.join(str(b) for b in sorted(bands))


def rows(env, dims, nband, ndet, combs=None, dets=None, types=None, step=None,
         sym=(), fitters=None, conf=None, planes='', region=None,
         oregion=None, wsym=False, psf_fail=(), psfkey='e', nodet=0,
         lim=None, only='rows', anys=0, anyd=0):
    """one row for each detection; sym: (type, index) of positions that are
    arbitrary; anys, anyd: number of combinations of shear and detection bands
    that are any ordered set of bands"""
    md = env.mod('metadetect.metadetect')
    sp = env.mod('metadetect.shearpos')
    np = env.np
    ty = types or TYPES
    o = [list(p) for m in range(1, nband + 1)
         for p in itertools.permutations(range(nband), m)]
    if anys:
        combs = [o[env.choose('shear_bands%d' % i, len(o))]
                 for i in range(anys)]
    if anyd:
        dets = [o[env.choose('det_bands%d' % i, len(o))] for i in range(anyd)]
    objs, k = {}, 0
    for t in ty:
        objs[t] = []
        for i in range(ndet.get(t, 0)):
            if [t, i] in [list(s) for s in sym]:
                lo, hi = lim or (0, 0)
                y = env.real('y_%s%d' % (t, i), -lo, dims[0] - 1 + hi)
                x = env.real('x_%s%d' % (t, i), -lo, dims[1] - 1 + hi)
            else:
                y = np.float64((.25 + .75 * k) % (dims[0] - 1))
                x = np.float64((1.75 + 1.25 * k) % (dims[1] - 1))
            objs[t].append((y, x))
            k += 1
    S = Setup(env, dims, nband, types=ty, objs=objs,
              psf_fail=[tuple(p) for p in psf_fail])
    P = {}
    for n, c in (('bmask', 'b'), ('ormask', 'o')):
        P[n] = [env.arr_bv('%s%d' % (n, b), dims) if c in planes else
                np.zeros(dims, dtype='i4') for b in range(nband)]
    if 'm' in planes:
        P['mfrac'] = [env.arr_real('mf%d' % b, dims, 0, .5)
                      for b in range(nband)]
    if wsym == 'vary':
        # concrete: positive weights with median m and maximum x
        P['weight'] = [np.zeros(dims) + (2.0 + b) for b in range(nband)]
        for b in range(nband):
            for i, p in enumerate(pixels(dims)):
                P['weight'][b][p] = _wt(b, i)
    elif wsym:
        P['weight'] = [np.zeros(dims) + env.real('w%d' % b, 1 / 8, 100)
                       for b in range(nband)]
    else:
        P['weight'] = [np.zeros(dims) + (2.0 + b) for b in range(nband)]
    npix = dims[0] * dims[1]
    S.stat = [_stat(b, npix) if wsym == 'vary' else (P['weight'][b][0, 0],) * 2
              for b in range(nband)]
    for b in range(nband):
        r = {'flags': 0, 'T': env.real('pT%d' % b, 0, 10)}
        r[psfkey] = env.arr_real('pe%d' % b, 2, -1, 1)
        S.pres[0, b] = r
    mb = S.inputs(**P)
    c = _conf(conf)
    if sym or wsym == 'vary':
        # keeps objects at the edge
        c['symmetrize'] = False
    if fitters:
        c['fitters'] = copy.deepcopy(fitters)
        c.pop('model', None)
        c.pop('weight', None)
    if nodet:
        c['nodet_flags'] = nodet
    if types:
        c['metacal']['types'] = types
    if step:
        c['metacal']['step'] = step
    if region is not None:
        c['mask_region'] = region
    if oregion is not None:
        c['ormask_region'] = oregion
    kw = {}
    if combs is not None:
        kw['shear_band_combs'] = combs
    if dets is not None:
        kw['det_band_combs'] = dets
    combs = combs or [list(range(nband))]
    if dets == 'shear_bands':
        dets = combs
    dets = dets or [list(range(nband))] * len(combs)
    rng = env.rng()
    r = md.do_metadetect(c, mb, rng, **kw)
    env.check('types', sorted(r) == sorted(ty))
    if only == 'rows':
        _once(env, S, rng, c, combs, dets, ty)
    for t in ty:
        n = len(objs[t])
        if n == 0:
            env.check('no objects', r[t] is None)
            continue
        d = r[t]
        env.check('rows', d.size == n * len(combs))
        for q, (sb, db) in enumerate(zip(combs, dets)):
            for i in range(n):
                k = q * n + i
                a = (env, S, d, k, t, objs[t][i], sb, db, P, c, mb, fitters)
                if only == 'rows':
                    _row(*a, sp)
                elif only == 'psf':
                    _psf(*a, psf_fail, psfkey)
                elif only == 'mask':
                    _mask(*a, region, oregion, planes)
                else:
                    _mfrac(*a, planes, [t, i] in [list(z) for z in sym])


def _once(env, S, rng, c, combs, dets, ty):
    np = env.np
    # metacal once, with the settings and the random state given
    env.check('one metacal', len(S.mcal) == 1 and S.mcal[0][1] is rng
              and S.mcal[0][2] == c['metacal'])
    # detection for each combination and type on the bands asked for
    env.check('detections', len(S.det) == len(combs) * len(ty))
    want = sorted((ty.index(t), sum(_code(0, t, b) for b in cmb) / len(cmb))
                  for cmb in dets for t in ty)
    got = []
    for t, k in S.det:
        im = k['image']
        got.append((ty.index(t), float(im[0, 0])))
        env.check_eq('detection image', im, np.zeros(S.dims) + im[0, 0])
    env.check('detection images', sorted(got) == want)


def _wt(b, i):
    return [[4., 0., 1.5, 16., 2., 0., 8., 4.5, 1.],
            [3., 1., .5, 0., 0., 2., 6., .25, 32.]][b % 2][i % 9]


def _stat(b, n):
    """median of the positive weights, maximum"""
    v = sorted(x for x in (_wt(b, i) for i in range(n)) if x > 0)
    h = len(v) // 2
    return v[h] if len(v) % 2 else (v[h - 1] + v[h]) / 2, v[-1]


def _row(env, S, d, k, t, pos, sb, db, P, c, mb, fitters, sp):
    np = env.np
    dims = S.dims
    env.check('shear bands', str(d['shear_bands'][k]) == _str(sb))
    env.check('det bands', str(d['det_bands'][k]) == _str(db))
    env.check_eq('row', d['sx_row'][k], pos[0])
    env.check_eq('col', d['sx_col'][k], pos[1])
    y0, x0 = sp.unshear_positions_obs(
        np.array([pos[0]]), np.array([pos[1]]), t, mb[0][0],
        step=c['metacal'].get('step', .01))
    env.check_eq('row without shear', d['sx_row_noshear'][k], y0[0],
                 tol=1e-4)
    env.check_eq('col without shear', d['sx_col_noshear'][k], x0[0],
                 tol=1e-4)
    names = [f['model'] for f in fitters] if fitters else ['wmom']
    for kind in names:
        if kind == 'am':
            env.check_eq('am', d['am_T'][k], 1.5)
            continue
        reg = [f for f in fitters or [] if f['model'] == kind
               and 'fwhm_reg' in f['weight']]
        if reg:
            kind += '_reg%0.2f' % reg[0]['weight']['fwhm_reg']
        for b in range(S.nband):
            fl = d[kind + '_band_flux']
            env.check_eq('flux of the object', fl[k, b] if S.nband > 1
                         else fl[k], _flux(_code(0, t, b)))
        env.check('fit', d[kind + '_flags'][k] == 0)


def _psf(env, S, d, k, t, pos, sb, db, P, c, mb, fitters, psf_fail, psfkey):
    if psf_fail:
        env.check('psf failure', env.And(
            d['psfrec_flags'][k] != 0, env.isnan(d['psfrec_T'][k]),
            env.isnan(d['psfrec_g'][k, 0]), env.isnan(d['psfrec_g'][k, 1])))
    else:
        w = [S.stat[b][1] for b in sb]
        W = sum(w)
        env.check('psf flags', d['psfrec_flags'][k] == 0)
        env.check_eq('psf T', d['psfrec_T'][k] * W, sum(
            x * S.pres[0, b]['T'] for x, b in zip(w, sb)))
        for j in range(2):
            env.check_eq('psf g', d['psfrec_g'][k, j] * W, sum(
                x * S.pres[0, b][psfkey][j] for x, b in zip(w, sb)))


def _mask(env, S, d, k, t, pos, sb, db, P, c, mb, fitters, region, oregion,
          planes):
    np, dims = env.np, S.dims
    for col, c_, reg in (('bmask', 'b', region or 0),
                         ('ormask', 'o', oregion if (oregion or 0) > 1
                          else region or 0)):
        full = np.zeros(dims, dtype='i4')
        for b in sb:
            full = full | P[col][b]
        for suf in ('', '_noshear'):
            got = d[col + suf][k]
            if c_ not in planes:
                env.check('no bits', got == 0)
                continue
            env.check_eq(col + suf, got, _bits(
                env, full, d['sx_row' + suf][k], d['sx_col' + suf][k], dims,
                reg if reg > 1 else 0))


def _mfrac(env, S, d, k, t, pos, sb, db, P, c, mb, fitters, planes, issym):
    dims = S.dims
    if 'm' not in planes:
        env.check('no masked fraction', env.And(
            d['mfrac'][k] == 0, d['mfrac_noshear'][k] == 0,
            d['mfrac_img'][k] == 0))
    else:
        w = [S.stat[b][0] for b in sb]
        tot = sum(sum(x * P['mfrac'][b][p] for x, b in zip(w, sb))
                  for p in pixels(dims))
        env.check_eq('mean masked fraction', d['mfrac_img'][k] * sum(w)
                     * (dims[0] * dims[1]), tot)
        if issym:
            return
        some = env.possible(tot > 0)
        fw = (c['fitters'][0] if fitters else c).get('weight', {})
        fwhm = c.get('mfrac_fwhm', fw.get('fwhm', 1.2))
        img = {p: sum(x * P['mfrac'][b][p] for x, b in zip(w, sb)) / sum(w)
               for p in pixels(dims)}
        for suf in ('', '_noshear'):
            want = 0
            if some:
                want = _mean(env, img, dims, mb[0][0].jacobian,
                             d['sx_row' + suf][k], d['sx_col' + suf][k],
                             c['meds']['min_box_size'], fwhm)
            env.check_eq('masked fraction', d['mfrac' + suf][k], want,
                         tol=1e-4)


def _mean(env, img, dims, jac, y, x, box, fwhm):
    """weighted mean over the pixels of the stamp within twice fwhm; None when
    there are none. Positions are concrete"""
    T = env.mod('ngmix').moments.fwhm_to_T(fwhm)
    num = den = 0
    r0 = max(0, int(y) - box // 2 + 1)
    c0 = max(0, int(x) - box // 2 + 1)
    for i in range(r0, min(r0 + box, dims[0])):
        for j in range(c0, min(c0 + box, dims[1])):
            v = jac.dvdrow * (i - y) + jac.dvdcol * (j - x)
            u = jac.dudrow * (i - y) + jac.dudcol * (j - x)
            r2 = u * u + v * v
            if r2 <= 4 * fwhm * fwhm:
                g = 1 / (1 + r2 / T)
                num = num + g * img[i, j]
                den = den + g
    if isinstance(den, int):
        return None
    return num / den


def mfrac(env, dims, pos, boxes, fwhm, wsym=False, zero=()):
    """weighted mean of the masked fraction around positions"""
    mm = env.mod('metadetect.mfrac')
    np = env.np
    if wsym:
        wt = env.arr_real('w', dims, 0, 10)
    else:
        wt = np.ones(dims)
    for p in zero:
        wt[p[0], p[1]] = 0
    img0 = np.zeros(dims) + 3.0
    obs = _image(env, 1.0, dims, weight=wt)
    obs = env.mod('ngmix').Observation(
        img0, weight=wt, bmask=env.arr_bv('bm', dims), jacobian=obs.jacobian,
        psf=obs.psf, ignore_zero_weight=False)
    for p in pixels(dims):
        # no pixel of the image looks like an edge
        env.assume((obs.bmask[p] & 2 ** 30) == 0)
    mf = env.arr_real('mf', dims, 0, 1)
    keep = mf.copy()
    y = np.array([p[0] for p in pos])
    x = np.array([p[1] for p in pos])
    res = mm.measure_mfrac(mfrac=mf, x=x, y=y,
                           box_sizes=np.array(boxes, dtype='i4'), obs=obs,
                           fwhm=fwhm)
    env.shape_is('one value per position', res, (len(pos),))
    img = {p: mf[p] for p in pixels(dims)}
    for k, (p, b) in enumerate(zip(pos, boxes)):
        if b <= 0:
            env.check_eq('no stamp', res[k], 1.0)
            continue
        r0 = max(0, int(p[0]) - b // 2 + 1)
        c0 = max(0, int(p[1]) - b // 2 + 1)
        use = [wt[i, j] > 0 for i in range(r0, min(r0 + b, dims[0]))
               for j in range(c0, min(c0 + b, dims[1]))]
        if env.possible(env.Or(*use)):
            env.check_eq('weighted mean', res[k], _mean(
                env, img, dims, obs.jacobian, p[0], p[1], b,
                1.2 if fwhm is None else fwhm))
            env.check('a fraction', env.And(res[k] >= -1e-9,
                                            res[k] <= 1 + 1e-9))
        else:
            env.check_eq('no data', res[k], 1.0)
    env.check_eq('image kept', mf, keep)
    env.check_eq('observation kept', obs.image, img0)
    env.check_eq('weights kept', obs.weight, wt)


def _bits(env, full, r, c, dims, reg):
    """or of the bits within reg pixels of the pixel nearest to (r, c), which
    is clipped to the image"""
    np = env.np
    out = 0

    def near(v, n):
        e = []
        for i in range(n):
            lo = True if i == 0 else v >= i - .5
            hi = True if i == n - 1 else v < i + .5
            e.append(env.And(lo, hi))
        return e
    for v, n in ((r, dims[0]), (c, dims[1])):
        for i in range(n - 1):
            # not a tie
            env.assume(env.Or(v > i + .501, v < i + .499))
    nr, nc = near(r, dims[0]), near(c, dims[1])
    for i, j in pixels(dims):
        use = env.Or(*[env.And(nr[a], nc[b])
                       for a in range(dims[0]) for b in range(dims[1])
                       if abs(a - i) <= reg and abs(b - j) <= reg])
        out = out | env.ite(use, full[i, j], 0)
    return out


def colors(env, dims, nband, ndet, nkey=2, combs=None, same=False, fail=(),
           psf_fail=(), types=None):
    """each object is measured on the images rendered for its colour"""
    md = env.mod('metadetect.metadetect')
    np = env.np
    ty = types or ['noshear', '1p']
    cells = [(i, j) for i in range(0, dims[0] - 1, 2)
             for j in range(0, dims[1] - 1, 2)]
    objs, blk, sel = {}, {}, {}
    top = nkey + (1 if same else 0)
    for n, t in enumerate(ty):
        objs[t] = []
        for i in range(ndet.get(t, 0)):
            c = cells[(n + i) % len(cells)]
            objs[t].append((np.float64(c[0]), np.float64(c[1])))
            blk[t, i] = _block(dims, *c)
            sel[t, blk[t, i]] = env.choose('key_%s%d' % (t, i), top + 1)
    S = Setup(env, dims, nband, types=ty, objs=objs, mcal_fail=fail,
              psf_fail=[(k, nband - 1) for k in psf_fail], blocks=True)
    mbs = {}
    P = {}
    for key in range(nkey + 1):
        P[key] = {
            'bmask': [np.zeros(dims, dtype='i4') + (1 << (key * 2 + b))
                      for b in range(nband)],
            'ormask': [np.zeros(dims, dtype='i4') + (1 << (9 + key * 2 + b))
                       for b in range(nband)],
            'weight': [np.zeros(dims) + env.real('w%d%d' % (key, b), 1, 4)
                       for b in range(nband)],
            'mfrac': [np.zeros(dims) + env.real('m%d%d' % (key, b), 1 / 8, 1 / 2)
                      for b in range(nband)],
        }
        mbs[key] = S.inputs(key, **P[key])
        for b in range(nband):
            S.pres[key, b] = {'flags': 0, 'T': 1.0 + key + b / 2,
                              'e': np.array([key / 8, b / 4])}
    seen = []

    def func(flux):
        f = [flux[b] for b in range(nband)] if nband > 1 else [flux]
        v = [int(x) - 10 for x in f]
        block, code = v[0] // 4096, v[0] % 4096
        t = [t for t in ty if _code(0, t, 0) == code]
        seen.append((t, block))
        env.check('fluxes for the colour', v == [
            _code(0, t[0], b) + 4096 * block for b in range(nband)])
        k = sel[t[0], block]
        return None if k == 0 else 'c%d' % k
    dep = {'c%d' % k: mbs[k] for k in range(1, nkey + 1)}
    if same:
        dep['c%d' % top] = mbs[0]
    conf = _conf({})
    conf['metacal']['types'] = ty
    kw = {} if combs is None else {'shear_band_combs': combs}
    res = md.do_metadetect(conf, mbs[0], env.rng(), color_key_func=func,
                           color_dep_mbobs=dep, **kw)
    combs = combs or [list(range(nband))]
    use = {0}
    for t in ty:
        rows = []
        for sb in combs:
            for i, pos in enumerate(objs[t]):
                k = sel[t, blk[t, i]]
                k = 0 if k > nkey else k
                use.add(k)
                if k not in fail:
                    rows.append((sb, i, pos, k))
        env.check('a colour for each', sorted(
            b for tt, b in seen if tt == [t]) == sorted(
            [blk[t, i] for i in range(len(objs[t]))] * len(combs)))
        d = res[t]
        if not rows:
            env.check('nothing', d is None)
            continue
        env.check('rows', d is not None and d.size == len(rows))
        for r, (sb, i, pos, k) in enumerate(rows):
            env.check('bands', str(d['shear_bands'][r]) == _str(sb)
                      and str(d['det_bands'][r]) == _str(range(nband)))
            env.check_eq('row', d['sx_row'][r], pos[0])
            env.check_eq('col', d['sx_col'][r], pos[1])
            for b in range(nband):
                fl = d['wmom_band_flux']
                env.check_eq('measured on its colour',
                             fl[r, b] if nband > 1 else fl[r],
                             _flux(_code(k, t, b) + 4096 * blk[t, i]))
            w = [P[k]['weight'][b][0, 0] for b in sb]
            W = sum(w)
            if k in psf_fail:
                env.check('psf failure', env.And(
                    d['psfrec_flags'][r] != 0, env.isnan(d['psfrec_T'][r]),
                    env.isnan(d['psfrec_g'][r, 0]),
                    env.isnan(d['psfrec_g'][r, 1])))
            else:
                env.check('psf flags', d['psfrec_flags'][r] == 0)
                env.check_eq('psf T', d['psfrec_T'][r] * W, sum(
                    x * S.pres[k, b]['T'] for x, b in zip(w, sb)))
                for j in range(2):
                    env.check_eq('psf g', d['psfrec_g'][r, j] * W, sum(
                        x * S.pres[k, b]['e'][j] for x, b in zip(w, sb)))
            bm = om = 0
            for b in sb:
                bm |= 1 << (k * 2 + b)
                om |= 1 << (9 + k * 2 + b)
            for suf in ('', '_noshear'):
                env.check('bits', env.And(d['bmask' + suf][r] == bm,
                                          d['ormask' + suf][r] == om))
            env.check_eq('mean masked fraction', d['mfrac_img'][r] * W, sum(
                x * P[k]['mfrac'][b][0, 0] for x, b in zip(w, sb)))
    env.check('metacal once for each colour used',
              sorted(k for k, _, _ in S.mcal) == sorted(use))
