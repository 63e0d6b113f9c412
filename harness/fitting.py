"""measurements of one object (metadetect/fitting.py)"""
from .common import pixels

NOATT, EDGE, PSFF, OBJF, NOMOM, ZEROW, MISSING, INCONS = (
    1, 2**20, 2**21, 2**22, 2**23, 2**25, 2**27, 2**28)


def has(flags, bit):
    return (flags & bit) != 0


def obs1(env, name, dims=(1, 1), psf=True, w=None, meta=None, psf_meta=None,
         wmin=0, noise=False, mfrac=False, ormask=False, bmask=True, jac=None,
         psfdims=(1, 1), im=True, pjac=None):
    """a stamp"""
    ngmix = env.mod('ngmix')
    np = env.np
    p = None
    if psf:
        pim = env.arr_real(name + '_p', psfdims, 0, 10) if psf != 'flat' \
            else np.ones(psfdims)
        p = ngmix.Observation(pim, meta=dict(psf_meta or {}, psf=name),
                              jacobian=pjac or jac)
    kw = {}
    if bmask:
        kw['bmask'] = env.arr_bv(name + '_bm', dims)
    if noise:
        kw['noise'] = env.arr_real(name + '_no', dims, -10, 10)
    if mfrac:
        kw['mfrac'] = env.arr_real(name + '_mf', dims, 0, 1)
    if ormask:
        kw['ormask'] = env.arr_bv(name + '_or', dims)
    if w is None:
        w = env.arr_real(name + '_w', dims, wmin, 1000)
    if jac is None:
        jac = ngmix.DiagonalJacobian(scale=0.25, row=0.5, col=1.0)
    image = env.arr_real(name + '_im', dims, -1000, 1000) if im \
        else np.zeros(dims)
    return ngmix.Observation(
        image, weight=w, psf=p,
        jacobian=jac, ignore_zero_weight=False,
        meta=dict(meta or {}, obj=name), **kw)


def moms(env, name, k, norm, sym=()):
    """a moments measurement; sym: s sums, c covariances, n norms"""
    np = env.np
    psf = name[0] == 'p'
    if ('P' if psf else 'S') in sym:
        s = env.arr_real(name + '_s', 6, -100, 100)
    else:
        s = np.array([.25 + k, -.5, 1.5 - k, .75 + k, 6. + 2 * k, 9. - k]
                     if not psf else
                     [.5, .25 * k, .125 - k / 4, .25, 3.5 + k, 5. + 3 * k])
    c = np.zeros((6, 6))
    if ('Q' if psf else 'C') in sym:
        for i in range(6):
            c[i, i] = env.real(name + '_c%d' % i, -1, 100)
        for i, j in ((2, 4), (3, 4), (4, 5)):
            v = env.real(name + '_c%d%d' % (i, j), -10, 10)
            c[i, j] = v
            c[j, i] = v
    else:
        for i in range(6):
            c[i, i] = 1 + i / 2 + k / 4
            if i:
                c[i, i-1] = .25 + i / 16 - k / 16
                c[i-1, i] = c[i, i-1]
        c[2, 4] = .5 + k / 4
        c[4, 2] = c[2, 4]
    r = {'flags': 0, 'flagstr': 'x', 'sums': s, 'sums_cov': c}
    if norm == 'yes':
        r['sums_norm'] = env.real(name + '_n', 1 / 8, 8) if 'N' in sym \
            else np.float64(2. + k)
    elif norm == 'nan':
        r['sums_norm'] = np.nan
    if 'F' in sym:
        r['flags'] = env.int(name + '_fl', 0, 3)
        r['flux'] = env.real(name + '_f', -100, 100)
        r['flux_err'] = env.real(name + '_fe', 0, 100)
        r['flux_flags'] = env.int(name + '_ff', 0, 2) * 4
    else:
        r['flux'] = np.float64(3. + k)
        r['flux_err'] = np.float64(.25 + k)
        r['flux_flags'] = 0
    return r


def mk(env, obss):
    ngmix = env.mod('ngmix')
    mb = ngmix.MultiBandObsList()
    for o in obss:
        ol = ngmix.ObsList()
        for x in (o if isinstance(o, list) else [o] if o is not None else []):
            ol.append(x)
        mb.append(ol)
    return mb


def _fitter(env, kind, results, calls):
    ngmix = env.mod('ngmix')
    f = {'wmom': ngmix.gaussmom.GaussMom, 'pgauss': ngmix.prepsfmom.PGaussMom,
         'ksigma': ngmix.prepsfmom.KSigmaMom}[kind](fwhm=1.2)

    def go(fitter, obs, *a, **k):
        if 'psf' in obs.meta:
            calls.append(('psf', obs.meta['psf'], k, obs, fitter))
            return dict(results['p' + obs.meta['psf']])
        calls.append(('obj', obs.meta['obj'], k, obs, fitter))
        return dict(results[obs.meta['obj']])
    ngmix.hooks['fitter_go'] = go
    # the descriptions of flags are checked separately
    ngmix.hooks['flags_str'] = lambda v: 'x'
    return f


def _col(data, kind, name):
    return data[kind + '_' + name][0]


def _bf(data, kind, name, b, nband):
    v = data[kind + '_' + name]
    return v[0, b] if nband > 1 else v[0]


def _sum(env, res, wres, w, sel):
    """weighted sums of the moments over the selected bands"""
    np = env.np
    S = [0] * 6
    V = {}
    wsum, fl, fv = 0, 0, 0
    for b in sel:
        r = res[b]

        def nrm(q):
            n = q.get('sums_norm')
            return 1 if n is None or n is np.nan else n
        k = w[b] / nrm(r)
        if wres is not None:
            # match the flux of the object
            o = wres[b]
            k = k * ((o['sums'][5] / nrm(o)) / (r['sums'][5] / nrm(r)))
        for i in range(6):
            S[i] = S[i] + k * r['sums'][i]
            for j in range(6):
                V[i, j] = V.get((i, j), 0) + k * k * r['sums_cov'][i, j]
        wsum = wsum + w[b]
        fl = fl + w[b] * r['sums'][5]
        fv = fv + w[b] * w[b] * r['sums_cov'][5, 5]
    return ([x / wsum for x in S],
            {k: v / (wsum * wsum) for k, v in V.items()},
            fl / wsum, fv / (wsum * wsum))


def _momflags(env, S, V, fl, fv):
    """flags of averaged moments, as conditions"""
    pos = env.And(*[V[i, i] > 0 for i in range(6)])
    return env.And(pos, S[5] > 0, S[4] > 0, fl > 0, fv > 0)


def wavg(env, nband, shear, kind='wmom', norm='yes', fault=None, reg=0,
         what=('e',), flags=0, sb='given', sym='S',
         stamp=None, symm=False):
    """several bands measured and averaged"""
    m = env.mod('metadetect.fitting')
    ngmix = env.mod('ngmix')
    np = env.np
    fault = {int(k): v for k, v in (fault or {}).items()}
    pbad = False
    names = ['b%d' % b for b in range(nband)]
    results, obss, w = {}, [], []
    for b, n in enumerate(names):
        results[n] = moms(env, n, b, norm, sym)
        results['p' + n] = moms(env, 'p' + n, b, norm, sym)
        f = fault.get(b)
        if f == 'nomom':
            del results[n]['sums_cov']
        elif f == 'nopsfmom':
            del results['p' + n]['sums']
        elif f == 'noflux':
            del results[n]['flux_err']
        if stamp is None:
            o = obs1(env, n, wmin=0 if f == 'w' else 1 / 8, psf='flat',
                     im=False, w=None if f == 'w' or 'W' in sym
                     else np.array([[3. + 2 * b]]))
        else:
            # stamp: size and pixels of zero weight
            nn = stamp[0]
            zero = [tuple(z) for z in stamp[1 + b]]
            wt = np.zeros((nn, nn))
            bad4 = set()
            for i, j in zero:
                for q in range(4 if symm else 1):
                    bad4.add((i, j))
                    i, j = j, nn - 1 - i
            left = []
            for i, j in pixels((nn, nn)):
                if (i, j) in zero:
                    continue
                v = env.real('%s_w%d%d' % (n, i, j), 1 / 8, 1000) \
                    if 'W' in sym else np.float64(1. + i + 2 * j + b)
                wt[i, j] = v
                if (i, j) not in bad4:
                    left.append(v)
            o = obs1(env, n, dims=(nn, nn), w=wt, psf='flat', im=False,
                     bmask=False)
            o.set_bmask(np.zeros((nn, nn), dtype='i4'))
        obss.append(None if f == 'missing' else o)
        w.append(o.weight[0, 0] if stamp is None else
                 np.median(np.array(left)) if left else np.float64(0))
    calls = []
    fitter = _fitter(env, kind, results, calls)
    data = m.fit_mbobs_wavg(
        mbobs=mk(env, obss), fitter=fitter, bmask_flags=flags,
        shear_bands=list(shear) if sb == 'given' else None, fwhm_reg=reg,
        symmetrize=symm)
    env.shape_is('one row', data, (1,))
    env.check('shear bands column', str(data['shear_bands'][0])
              == ''.join(str(s) for s in sorted(shear)))
    for c in calls:
        env.check('psf fit options', c[2] == (
            {'no_psf': True} if c[0] == 'psf' and kind != 'wmom' else {}))

    F = lambda n: _col(data, kind, n)
    bad, badp = {}, {}
    for b in range(nband):
        f = fault.get(b)
        c = [('missing', f == 'missing', MISSING)]
        if f != 'missing':
            c.append(('zero weight', env.Not(w[b] > 0), ZEROW))
            c.append(('edge', (obss[b].bmask[0, 0] & flags) != 0, EDGE))
        if f == 'nomom':
            measured = env.And(*[env.Not(x[1]) for x in c])
            c.append(('no moments', measured, NOMOM))
        for label, cond, bit in c:
            if b in shear:
                env.check(label + ' is flagged', env.Implies(
                    cond, env.And(has(F('obj_flags'), bit),
                                  has(F('flags'), bit),
                                  F('psf_flags') != 0)))
            elif label != 'no moments':
                env.check(label + ' is flagged in fluxes', env.Implies(
                    cond, env.And(has(F('flags'), bit),
                                  has(_bf(data, kind, 'band_flux_flags', b,
                                          nband), bit))))
        bad[b] = env.Or(*[x[1] for x in c])
        if f == 'nopsfmom' and b in shear:
            pbad = True
        # band fluxes
        fbad = env.Or(*[x[1] for x in c if x[0] != 'no moments'])
        ff = _bf(data, kind, 'band_flux_flags', b, nband)
        fx = _bf(data, kind, 'band_flux', b, nband)
        fe = _bf(data, kind, 'band_flux_err', b, nband)
        if env.possible(fbad):
            env.check('bad band has no flux', env.And(
                ff != 0, env.isnan(fx), env.isnan(fe)))
        elif f == 'noflux':
            env.check('no flux measured', env.And(
                has(ff, NOMOM), env.isnan(fx), env.isnan(fe)))
        else:
            r = results[names[b]]
            env.check_eq('band flux', fx, r['flux'])
            env.check_eq('band flux error', fe, r['flux_err'])
            env.check_eq('band flux flags', ff, r['flux_flags'])
            env.check('band flux flags in flags',
                      (F('flags') & ff) == ff)
    sel = sorted(set(shear))
    if env.possible(env.Or(*[bad[b] for b in sel])):
        _unmeasured(env, data, kind)
        env.check('obj fails with psf', env.Implies(
            F('psf_flags') != 0, has(F('obj_flags'), PSFF)))
        return
    if pbad:
        env.check('no psf moments', env.And(
            has(F('psf_flags'), NOMOM), has(F('obj_flags'), PSFF),
            has(F('flags'), PSFF), *[env.isnan(x) for x in
                                     (F('psf_g')[0], F('psf_g')[1],
                                      F('psf_T'), F('T_ratio'))]))
        return
    # all of the shear bands are there
    R = {b: results[names[b]] for b in sel}
    P = {b: results['p' + names[b]] for b in sel}
    for b in sel:
        zero = env.Or(P[b]['sums'][5] == 0)
        if env.possible(zero):
            env.check('no psf flux', env.And(
                has(F('psf_flags'), ZEROW), has(F('obj_flags'), PSFF),
                has(F('flags'), PSFF)))
            return
    S, V, fl, fv = _sum(env, R, None, w, sel)
    # the psf is weighted with the flux of the object in each band
    PS, PV, pfl, pfv = _sum(env, P, R, w, sel)
    T_reg = ngmix.moments.fwhm_to_T(reg) if reg else 0
    # regularized with a round smoothing of the given size
    S2, V2 = list(S), dict(V)
    if reg:
        S2[4] = S[4] + T_reg * S[5]
        A = np.eye(6)
        A[4, 5] = T_reg
        Vr = np.zeros((6, 6))
        for k, v in V.items():
            Vr[k] = v
        Vr = np.dot(A, np.dot(Vr, A.T))
        V2 = {k: Vr[k] for k in V}
    if 'flags' in what:
        good = _momflags(env, S, V, fl, fv)
        if reg:
            good = env.And(good, _momflags(env, S2, V2, fl, fv))
        pgood = _momflags(env, PS, PV, pfl, pfv)
        env.check('psf flags', (F('psf_flags') == 0) == pgood)
        env.check('obj flags', (F('obj_flags') == 0)
                  == env.And(good, pgood))
        ffl = [_bf(data, kind, 'band_flux_flags', b, nband)
               for b in range(nband)]
        env.check('flags', (F('flags') == 0) == env.And(
            good, pgood, *[x == 0 for x in ffl]))
        env.check('bad psf', env.Implies(
            env.Not(pgood), env.And(has(F('obj_flags'), PSFF),
                                    has(F('flags'), PSFF))))
    if 'e' in what:
        d = S2[4]
        ok = env.And(S[5] > 0, d > 0)
        if env.possible(ok):
            env.check_eq('e1', F('g')[0], S[2] / d)
            env.check_eq('e2', F('g')[1], S[3] / d)
        else:
            env.check('no shape', env.And(env.isnan(F('g')[0]),
                                          env.isnan(F('g')[1])))
    if 'T' in what:
        ok = env.And(S[5] > 0, V[4, 4] > 0, V[5, 5] > 0)
        if env.possible(ok):
            env.check_eq('T', F('T'), S[4] / S[5])
            env.check('T flags', F('T_flags') == 0)
        else:
            env.check('no T', env.And(env.isnan(F('T')), F('T_flags') != 0))
    if 's2n' in what:
        if env.possible(fv > 0):
            env.check_eq('s2n', F('s2n'), fl / np.sqrt(fv))
        else:
            env.check('no s2n', env.isnan(F('s2n')))
    if 'err' in what:
        Vr = np.zeros((6, 6))
        for k, v in V.items():
            Vr[k] = v
        mr = ngmix.moments.make_mom_result(np.array(S), Vr)
        env.check_eq('T error', F('T_err'), mr['T_err'])
        for k, v in V2.items():
            Vr[k] = v
        mr = ngmix.moments.make_mom_result(np.array(S2), Vr)
        env.check_eq('shape covariance', F('g_cov'), mr['e_cov'])
    if 'psf' in what:
        ok = env.And(PS[5] > 0, PS[4] > 0)
        if env.possible(ok):
            env.check_eq('psf e1', F('psf_g')[0], PS[2] / PS[4])
            env.check_eq('psf e2', F('psf_g')[1], PS[3] / PS[4])
        ok = env.And(PS[5] > 0, PV[4, 4] > 0, PV[5, 5] > 0)
        if env.possible(ok):
            env.check_eq('psf T', F('psf_T'), PS[4] / PS[5])
    if 'ratio' in what:
        if env.possible(F('flags') == 0):
            env.check_eq('T ratio', F('T_ratio') * F('psf_T'), F('T'))


FLOATS = ('g', 'T', 'T_err', 's2n', 'g_cov', 'T_ratio')


def _unmeasured(env, data, kind, cols=FLOATS):
    for c in cols:
        v = data[kind + '_' + c]
        v = v.ravel()
        env.check('%s of a failure is nan' % c,
                  env.And(*[env.isnan(v[i]) for i in range(v.size)]))
    env.check('failure is flagged', env.And(
        _col(data, kind, 'flags') != 0, _col(data, kind, 'obj_flags') != 0))


def _wstamp(env, name, dims, zero, sym=True):
    """weights positive except in the given pixels, and the median"""
    np = env.np
    zero = [tuple(z) for z in zero]
    w = np.zeros(dims)
    left = []
    for i, j in pixels(dims):
        if (i, j) not in zero:
            v = env.real('%s_w%d%d' % (name, i, j), 1 / 8, 1000) if sym \
                else np.float64(1.5 + i + 2 * j + len(name))
            w[i, j] = v
            left.append(v)
    return w, np.median(np.array(left)) if left else np.float64(0)


def coadd(env, nband, shear, dims=(1, 2), zero=None, opt='nmbo', sb='given',
          diff=None, wsym=True):
    """coadding the shear bands of one object"""
    m = env.mod('metadetect.fitting')
    ngmix = env.mod('ngmix')
    np = env.np
    zero = zero or [[]] * nband
    obss, med, ws = [], [], []
    for b in range(nband):
        n = 'b%d' % b
        w, wm = _wstamp(env, n, dims, zero[b], wsym)
        med.append(wm)
        ws.append(w)
        d = dims
        kw = {}
        if diff and diff[0] == b:
            if diff[1] == 'shape':
                d = (dims[0], dims[1] + 1)
                w = np.ones(d)
            elif diff[1] == 'jac':
                kw['jac'] = ngmix.DiagonalJacobian(scale=0.25, row=0.5,
                                                   col=1.25)
            elif diff[1] == 'psfjac':
                kw['pjac'] = ngmix.DiagonalJacobian(scale=0.5, row=0.5,
                                                    col=1.0)
            elif diff[1] == 'psfshape':
                kw['psfdims'] = (1, 2)
            elif diff[1] == 'nopsf':
                kw['psf'] = False
        o = dict(noise='n' in opt, mfrac='m' in opt, bmask='b' in opt,
                 ormask='o' in opt)
        if diff and diff[0] == b and diff[1] in o:
            o[diff[1]] = not o[diff[1]]
        obss.append(obs1(env, n, dims=d, w=w, meta={'k%d' % b: b, 'c': b},
                         psf_meta={'q%d' % b: b}, **o, **kw))
        if diff and diff == [b, 'psfcen']:
            obss[-1].psf.jacobian = ngmix.DiagonalJacobian(scale=1, row=0,
                                                           col=.25)
        if diff and diff == [b, 'imjac']:
            # only for the image
            obss[-1].jacobian = ngmix.DiagonalJacobian(scale=0.25, row=0.5,
                                                       col=1.25)
    before = [{k: getattr(o, k).copy() for k in ('image', 'weight')}
              for o in obss]
    mb = mk(env, obss)
    args = {'shear_bands': list(shear)} if sb == 'given' else {}
    c, fl = m.make_coadd_obs(mb, **args)
    for o, s in zip(obss, before):
        env.check_eq('inputs kept', o.image, s['image'])
        env.check_eq('input weights kept', o.weight, s['weight'])
    if any(s >= nband for s in shear):
        env.check('missing band refused', c is None and has(fl, INCONS))
        return
    if len(shear) == 1:
        env.check('single band is used as it is',
                  c is obss[shear[0]] and fl == 0)
        return
    if diff and diff[0] in shear:
        env.check('inconsistent bands refused', c is None
                  and has(fl, INCONS))
        return
    if any(len(zero[b]) == dims[0] * dims[1] for b in shear):
        env.check('zero weight refused', c is None and has(fl, ZEROW))
        return
    allzero = all(any([i, j] in [list(z) for z in zero[b]] for b in shear)
                  for i, j in pixels(dims))
    if allzero:
        env.check('zero coadd refused', c is None and has(fl, ZEROW))
        return
    env.check('no flags', fl == 0)
    S = sum(med[b] for b in shear)

    def avg(f):
        return sum(med[b] * f(obss[b]) for b in shear) / S
    env.shape_is('coadd shape', c.image, dims)
    for p in pixels(dims):
        env.check_eq('image', c.image[p], avg(lambda o: o.image[p]))
        for k, a in (('n', 'noise'), ('m', 'mfrac')):
            if k in opt:
                env.check_eq(a, getattr(c, a)[p],
                             avg(lambda o: getattr(o, a)[p]))
        for k, a in (('b', 'bmask'), ('o', 'ormask')):
            if k in opt:
                v = 0
                for b in shear:
                    v = getattr(obss[b], a)[p] | v
                env.check_eq(a, getattr(c, a)[p], v)
        if any(list(p) in [list(z) for z in zero[b]] for b in shear):
            env.check_eq('zero weight', c.weight[p], np.float64(0))
        else:
            v = sum(med[b] * med[b] / ws[b][p] for b in shear)
            env.check_eq('weight', c.weight[p] * v, S * S)
    for k, a in (('n', 'noise'), ('m', 'mfrac'), ('b', 'bmask'),
                 ('o', 'ormask')):
        env.check('has ' + a, getattr(c, 'has_' + a)() == (k in opt))
    for p in pixels(obss[shear[0]].psf.image.shape):
        env.check_eq('psf image', c.psf.image[p],
                     avg(lambda o: o.psf.image[p]))
    env.check('jacobian', repr(c.jacobian) == repr(obss[shear[0]].jacobian))
    env.check('psf jacobian', repr(c.psf.jacobian)
              == repr(obss[shear[0]].psf.jacobian))
    env.check('meta', all(c.meta.get('k%d' % b) == b for b in shear)
              and all(c.psf.meta.get('q%d' % b) == b for b in shear))


def symm(env, n, zero=None, neg=False, izw=False):
    """4-fold symmetrization of the weights; izw: for observations that leave
    out the pixels without weight, which may be all after it"""
    m = env.mod('metadetect.fitting')
    np = env.np
    if zero is None:
        pos = [[env.fork(env.bool('p%d%d' % (i, j))) for j in range(n)]
               for i in range(n)]
    else:
        zero = [tuple(z) for z in zero]
        pos = [[(i, j) not in zero for j in range(n)] for i in range(n)]
    w = np.zeros((n, n))
    for i, j in pixels((n, n)):
        v = env.real('w%d%d' % (i, j), 1 / 8, 1000)
        w[i, j] = v if pos[i][j] else (-v if neg else np.float64(0))
    o = obs1(env, 'o', dims=(n, n), w=w, noise=True)
    if izw:
        if not any(any(q) for q in pos):
            return
        o = env.mod('ngmix').Observation(
            o.image, weight=w, bmask=o.bmask, noise=o.noise, psf=o.psf,
            jacobian=o.jacobian)
    w0 = w.copy()
    im0, bm0 = o.image.copy(), o.bmask.copy()
    s = m.symmetrize_obs_weights(o)
    env.check('a copy', s is not o)
    env.check_eq('input kept', o.weight, w0)
    for i, j in pixels((n, n)):
        orbit = []
        a, b = i, j
        for _ in range(4):
            orbit.append(pos[a][b])
            a, b = b, n - 1 - a
        if all(orbit):
            env.check_eq('weight kept', s.weight[i, j], w0[i, j])
        elif neg and not pos[i][j]:
            env.check('bad pixel', s.weight[i, j] <= 0)
        else:
            env.check_eq('weight zeroed', s.weight[i, j], np.float64(0))
    env.check_eq('image kept', s.image, im0)
    env.check_eq('bits kept', s.bmask, bm0)
    env.check_eq('noise kept', s.noise, o.noise)
    env.check_eq('psf kept', s.psf.image, o.psf.image)


def _listed(env, m, mb, **kw):
    """the same object twice in a list"""
    env.check('no objects', m.fit_mbobs_list_joint(mbobs_list=[], **kw)
              is None)
    d = m.fit_mbobs_list_joint(mbobs_list=[mb, mb], **kw)
    env.shape_is('one row each', d, (2,))
    for n in d.dtype.names:
        if n.endswith('flags'):
            env.check_eq('rows alike', d[n][0:1], d[n][1:2])
    return d[:1]


def _joint_res(env, nb, kind, names):
    """results of a joint fit"""
    r = {'flags': env.int(kind + '_fl', 0, 2)}
    for n in names:
        r[n] = env.real(kind + '_' + n, -10, 10)
    return r


def _parts(o, seen):
    """everything an object of the fitting package is made of"""
    if id(o) in seen:
        return
    seen[id(o)] = o
    if isinstance(o, dict):
        o = list(o.values())
    if isinstance(o, (list, tuple)):
        for v in o:
            _parts(v, seen)
    elif type(o).__module__.split('.')[0] == 'ngmix':
        _parts(vars(o), seen)


def _setup(env, rng, scale, *tools):
    """what the fits are done with: the generator and pixel scale given"""
    seen = {}
    for t in tools:
        _parts(t, seen)
    g = [o for o in seen.values() if type(o) is type(rng)]
    env.check('random numbers', g and all(o is rng for o in g))
    if scale is None:
        return
    for o in seen.values():
        if type(o).__name__ == 'CenPrior':
            env.check_eq('centre prior', o.sigma1, scale)
            env.check_eq('centre prior', o.sigma2, scale)


def gauss(env, nband, shear, coadd=False, fault=None, raises=None, flags=4,
          sb='given', psfkey='g', zero=None, dims=(1, 1), wsym=True,
          lst=False, pix=0.25):
    """joint gaussian fit (lst: as one of a list of objects)"""
    m = env.mod('metadetect.fitting')
    ngmix = env.mod('ngmix')
    np = env.np
    fault = {int(k): v for k, v in (fault or {}).items()}
    zero = zero or [[]] * nband
    obss, med = [], []
    rng = env.rng()
    jac = ngmix.DiagonalJacobian(scale=pix, row=0.5, col=1.0)
    for b in range(nband):
        n = 'b%d' % b
        if fault.get(b) == 'w':
            w = env.arr_real(n + '_w', dims, 0, 100)
            wm = w[0, 0]
        else:
            w, wm = _wstamp(env, n, dims, zero[b], wsym)
        o = obs1(env, n, dims=dims, w=w, psf='flat', im=coadd,
                 jac=jac)
        o2 = obs1(env, n + 'x', dims=dims, w=w, psf='flat', im=False,
                  jac=jac)
        med.append(wm)
        obss.append({'missing': [], 'two': [o, o2]}.get(fault.get(b), [o]))
    mb = mk(env, obss)
    nsh = len(shear)
    nfit = 1 if coadd else nsh
    ores = {'flags': env.int('ofl', 0, 2) * 8}
    for n in ('s2n', 'T', 'T_err'):
        ores[n] = env.real('o_' + n, -10, 10)
    ores['g'] = env.arr_real('o_g', 2, -1, 1)
    ores['g_cov'] = env.arr_real('o_gc', (2, 2), -1, 1)
    ores['flux'] = env.arr_real('o_flux', nfit, -10, 10)
    ores['flux_err'] = env.arr_real('o_fluxerr', nfit, 0, 10)
    if nfit == 1:
        ores['flux'] = ores['flux'][0]
        ores['flux_err'] = ores['flux_err'][0]
    fit = []
    pres = []

    def boot(mbobs, runner, psf_runner):
        fit.append(mbobs)
        _setup(env, rng, pix, runner, psf_runner)
        pr = runner.fitter.kw.get('prior')
        fp = pr.kw.get('F_prior') if pr is not None else None
        if isinstance(fp, (list, tuple)):
            # anything else fails in ngmix
            env.check('a prior for each flux', len(fp) == nfit)
        if raises:
            raise {'psf': ngmix.gexceptions.BootPSFFailure,
                   'flux': ngmix.gexceptions.PSFFluxFailure,
                   'other': ValueError}[raises]('x')
        for i, ol in enumerate(mbobs):
            for o in ol:
                if len(fit) > 1:
                    # the same object again
                    o.psf.meta['result'] = pres[i]
                    continue
                r = {'flags': env.int('pfl%d' % i, 0, 1) * 2,
                     'T': env.real('pT%d' % i, 1 / 8, 10)}
                if psfkey == 'g':
                    r['g'] = env.arr_real('pg%d' % i, 2, -1, 1)
                else:
                    r['e'] = env.arr_real('pe%d' % i, 2, -.5, .5)
                o.psf.meta['result'] = r
                pres.append(r)
        return ores
    ngmix.hooks['bootstrap'] = boot
    kw = {'shear_bands': list(shear)} if sb == 'given' else {}
    if lst:
        data = _listed(env, m, mb, fitter_name='gauss', bmask_flags=flags,
                       rng=rng, coadd=coadd, **kw)
        fit, pres = fit[:1], pres[:nfit]
    else:
        data = m.fit_mbobs_gauss(mbobs=mb, bmask_flags=flags, rng=rng,
                                 coadd=coadd, **kw)
    env.shape_is('one row', data, (1,))
    F = lambda n: _col(data, 'gauss', n)
    env.check('shear bands column', str(data['shear_bands'][0])
              == ''.join(str(s) for s in sorted(shear)))
    conds = []
    for b in range(nband):
        f = fault.get(b)
        if f == 'missing':
            conds.append(('missing', True, MISSING))
        elif f == 'two':
            conds.append(('several epochs', True, INCONS))
        else:
            o = obss[b][0]
            conds.append(('zero weight', env.And(*[
                env.Not(o.weight[p] > 0) for p in pixels(dims)]), ZEROW))
            conds.append(('edge', env.Or(*[
                (o.bmask[p] & flags) != 0 for p in pixels(dims)]), EDGE))
    if any(s >= nband for s in shear):
        conds.append(('no such band', True, INCONS))
    for label, c, bit in conds:
        env.check(label + ' is flagged', env.Implies(c, has(F('flags'), bit)))
    if raises:
        conds.append(('failure', True, PSFF))
    if env.possible(env.Or(*[c[1] for c in conds])):
        if fit:
            env.check('fit failure is flagged', has(F('flags'), PSFF))
            if raises == 'other':
                env.check('unknown failure is flagged', has(F('flags'), OBJF))
        env.check('failure is flagged', env.And(
            F('flags') != 0, F('obj_flags') != 0, F('psf_flags') != 0))
        _nan(env, data, 'gauss', FLOATS + ('psf_g', 'psf_T', 'band_flux',
                                           'band_flux_err'))
        return
    env.check('one fit', len(fit) == 1 and len(fit[0]) == nfit)
    if not coadd:
        env.check('bands of the fit', all(
            fit[0][i][0] is obss[s][0] for i, s in enumerate(shear)))
    env.check_eq('obj flags', F('obj_flags'), ores['flags'])
    env.check_eq('T flags', F('T_flags'), ores['flags'])
    for b in range(nband):
        ff = _bf(data, 'gauss', 'band_flux_flags', b, nband)
        fx = _bf(data, 'gauss', 'band_flux', b, nband)
        fe = _bf(data, 'gauss', 'band_flux_err', b, nband)
        if b in shear:
            k = 0 if coadd else shear.index(b)
            env.check_eq('flux flags', ff, ores['flags'])
            if env.possible(ores['flags'] == 0):
                v, e = ores['flux'], ores['flux_err']
                env.check_eq('flux', fx, v if nfit == 1 else v[k])
                env.check_eq('flux err', fe, e if nfit == 1 else e[k])
                continue
        else:
            env.check('other band has no flux', ff != 0)
        env.check('no flux', env.And(env.isnan(fx), env.isnan(fe)))
    ok = env.possible(ores['flags'] == 0)
    if ok:
        for n in ('s2n', 'T', 'T_err', 'g', 'g_cov'):
            env.check_eq(n, F(n), ores[n])
    else:
        _nan(env, data, 'gauss', FLOATS)
    pbad = env.Or(*[r['flags'] != 0 for r in pres])
    env.check('psf flags', (F('psf_flags') != 0) == pbad)
    env.check('flags', (F('flags') != 0) == env.Or(
        F('psf_flags') != 0, ores['flags'] != 0))
    if env.possible(pbad):
        _nan(env, data, 'gauss', ('psf_g', 'psf_T', 'T_ratio'))
        return
    ww = [np.float64(1)] if coadd else [med[s] for s in shear]
    env.check_eq('psf T', F('psf_T'),
                 sum(w * r['T'] for w, r in zip(ww, pres)) / sum(ww))
    for i in range(2):
        def g(r):
            if psfkey == 'g':
                return r['g'][i]
            return ngmix.shape.e1e2_to_g1g2(*r['e'])[i]
        env.check_eq('psf g', F('psf_g')[i],
                     sum(w * r['T'] * g(r) for w, r in zip(ww, pres))
                     / sum(w * r['T'] for w, r in zip(ww, pres)))
    if ok:
        env.check_eq('T ratio', F('T_ratio') * F('psf_T'), F('T'))


def _nan(env, data, kind, cols):
    for c in cols:
        v = data[kind + '_' + c].ravel()
        env.check('%s is nan' % c,
                  env.And(*[env.isnan(v[i]) for i in range(v.size)]))


def admom(env, nband, shear, fault=None, raises=None, flags=4, sb='given',
          symmetrize=True, dims=(1, 1), zero=None, tflags=True, lst=None):
    """adaptive moments of the coadd"""
    m = env.mod('metadetect.fitting')
    ngmix = env.mod('ngmix')
    np = env.np
    fault = {int(k): v for k, v in (fault or {}).items()}
    zero = zero or [[]] * nband
    obss = []
    for b in range(nband):
        n = 'b%d' % b
        if fault.get(b) == 'w':
            w = env.arr_real(n + '_w', dims, 0, 100)
        else:
            w, _ = _wstamp(env, n, dims, zero[b], False)
        o = obs1(env, n, dims=dims, w=w, psf='flat')
        o2 = obs1(env, n + 'x', dims=dims, w=w, psf='flat', im=False)
        obss.append({'missing': [], 'two': [o, o2]}.get(fault.get(b), [o]))
    mb = mk(env, obss)
    calls = []
    rng = env.rng()
    res = {}
    for k in ('p', 'o'):
        r = {'flags': env.int(k + 'fl', 0, 1) * 16,
             'T_flags': env.int(k + 'tfl', 0, 1) * 8 if tflags else 0}
        for n in ('T', 'T_err', 's2n'):
            r[n] = env.real(k + n, 1 / 8, 10)
        r['e'] = env.arr_real(k + 'e', 2, -1, 1)
        r['e_cov'] = env.arr_real(k + 'ec', (2, 2), -1, 1)
        res[k] = r

    def go(runner, obs):
        k = 'p' if 'psf' in obs.meta else 'o'
        calls.append((k, obs))
        _setup(env, rng, None, runner)
        if raises == k:
            raise ValueError('x')
        return res[k]
    ngmix.hooks['runner_go'] = go
    kw = {'shear_bands': list(shear)} if sb == 'given' else {}
    if lst:
        data = _listed(env, m, mb, fitter_name=lst, bmask_flags=flags,
                       rng=rng, symmetrize=symmetrize, **kw)
        calls = calls[:len(calls) // 2]
    else:
        data = m.fit_mbobs_admom(mbobs=mb, bmask_flags=flags, rng=rng,
                                 symmetrize=symmetrize, **kw)
    env.shape_is('one row', data, (1,))
    F = lambda n: _col(data, 'am', n)
    env.check('shear bands column', str(data['shear_bands'][0])
              == ''.join(str(s) for s in sorted(shear)))
    _nan(env, data, 'am', ('band_flux', 'band_flux_err'))
    conds = []
    for b in range(nband):
        f = fault.get(b)
        if f == 'missing':
            conds.append(('missing', True, MISSING))
        elif f == 'two':
            conds.append(('several epochs', True, INCONS))
        else:
            o = obss[b][0]
            conds.append(('zero weight', env.And(*[
                env.Not(o.weight[p] > 0) for p in pixels(dims)]), ZEROW))
            conds.append(('edge', env.Or(*[
                (o.bmask[p] & flags) != 0 for p in pixels(dims)]), EDGE))
    if any(s >= nband for s in shear):
        any_ = env.Or(*[c[1] for c in conds])
        env.check('no such band is flagged',
                  env.Or(any_, has(F('flags'), INCONS)))
        conds.append(('no such band', True, 0))
    if raises == 'p':
        conds.append(('psf failure', True, 0))
    for label, c, bit in conds:
        if bit:
            env.check(label + ' is flagged',
                      env.Implies(c, has(F('flags'), bit)))
    if env.possible(env.Or(*[c[1] for c in conds])):
        if calls:
            env.check('psf failure is flagged', has(F('flags'), PSFF))
        env.check('failure is flagged', env.And(
            F('flags') != 0, F('obj_flags') != 0, F('psf_flags') != 0))
        _nan(env, data, 'am', FLOATS + ('psf_g', 'psf_T'))
        return
    p, o = res['p'], res['o']
    env.check('fits', [c[0] for c in calls] == ['p', 'o'])
    env.check_eq('psf flags', F('psf_flags'), p['flags'])
    if env.possible(p['flags'] == 0):
        env.check_eq('psf g', F('psf_g'), p['e'])
        env.check_eq('psf T', F('psf_T'), p['T'])
    else:
        _nan(env, data, 'am', ('psf_g', 'psf_T', 'T_ratio'))
    if raises == 'o':
        env.check('object failure is flagged', has(F('flags'), OBJF))
        _nan(env, data, 'am', FLOATS)
        return
    env.check('flags', (F('flags') == 0) == env.And(p['flags'] == 0,
                                                    o['flags'] == 0))
    env.check('both in flags', F('flags') == (p['flags'] | o['flags']))
    env.check_eq('obj flags', F('obj_flags'), o['flags'])
    env.check_eq('T flags', F('T_flags'), o['T_flags'])
    if env.possible(o['T_flags'] == 0):
        env.check_eq('T', F('T'), o['T'])
        env.check_eq('T err', F('T_err'), o['T_err'])
        if env.possible(p['flags'] == 0):
            env.check_eq('T ratio', F('T_ratio') * p['T'], o['T'])
    else:
        _nan(env, data, 'am', ('T', 'T_err', 'T_ratio'))
    if env.possible(o['flags'] == 0):
        env.check_eq('g', F('g'), o['e'])
        env.check_eq('s2n', F('s2n'), o['s2n'])
        env.check_eq('g cov', F('g_cov'), o['e_cov'])
    else:
        _nan(env, data, 'am', ('g', 's2n', 'g_cov'))
    # what was fit
    want, fl = m.make_coadd_obs(mb, shear_bands=list(shear))
    if symmetrize:
        want = m.symmetrize_obs_weights(want)
    got = calls[1][1]
    for a in ('image', 'weight', 'bmask'):
        env.check_eq('fit ' + a, getattr(got, a), getattr(want, a))
