"""measurements of the sources found (metadetect/lsst/measure.py)"""
from .common import pixels  # noqa
from .lcommon import L, snap
from .lmcal import BANDS
from .lstamp import _exps, _models, _want_box, _sl

EDGE, ZEROW = 2 ** 20, 2 ** 25


def _gauss(np, mbobs, data):
    """a result that tells what was measured"""
    f = [o[0].image[0, -1] for o in mbobs]
    n = len(mbobs)
    t = sum(f)
    r = {'flags': 0, 's2n': t * 2, 'T_err': 0.5,
         'T': (1.0 if data else t) + 100.0 * n,
         'g': np.array([.25, t / 8192]), 'g_cov': np.eye(2),
         'flux': np.array([v * 3 for v in f]),
         'flux_err': np.array([v + 4000 for v in f])}
    if n == 1:
        r['flux'], r['flux_err'] = r['flux'][0], r['flux_err'][0]
    return r


def _moms(np, fitter, obs, data):
    psf = not obs.has_psf()
    f = obs.image[-1, 0]
    v = 1.0 if data else f
    s = np.array([0., 0., .25 + v, .5, 4. + fitter.fwhm,
                  8. if psf else 10. + v])
    return {'flags': 0, 'flagstr': '', 'sums': s, 'sums_cov': np.eye(6),
            'flux': 10. + f, 'flux_err': 2.0, 'flux_flags': 0, 'pars': s,
            'T': .5}


def rows(env, dims, spec, size=3, nband=2, xy0=(0, 0), shear=None,
         nan=(), fault=(), boxes=None, dxy0=None, nosrc=None, fwhm=2.0,
         data=False, far=1, peaks=(), lost=None):
    """spec: [id, parent, nchild, (x, y), pixels]; nan: ids without centroid;
    fault: [id, band, kind] faults of the stamps; far: range of the offsets;
    peaks: [id, x, y] more peaks; lost: id of a source without psf"""
    l = L(env)
    np = env.np
    me = env.mod('metadetect.lsst.measure')
    mx = env.mod('metadetect.lsst.util')
    fi = env.mod('metadetect.fitting')
    ngmix = env.mod('ngmix')
    exps = _exps(env, l, dims, nband, xy0, planes='i' if data else '')
    want = {}
    if not data:
        for b, e in enumerate(exps):
            for i, j in pixels(dims):
                e.image.array[i, j] = 1.0 + b + 3 * (i * dims[1] + j)
    if nan:
        for e in exps:
            e.setPsf(l.psf(e.getPsf().at(0, 0)))
    if lost is not None:
        # the psf can not be made there
        class Lost(type(exps[0].getPsf())):
            def computeKernelImage(self, pos=None):
                if pos is not None and bool(pos.x == -50.25):
                    raise l.exc.InvalidParameterError('x')
                return super().computeKernelImage(pos)
        q = exps[0].getPsf()
        exps[0].setPsf(Lost(q.l, q.image, q.log))
    mb = l.full(exps)
    bands = BANDS[:nband]
    # the detection image is another one
    det = l.anyexp('det', dims, xy0, planes='m', wcs=mb.singles[0].getWcs(),
                   psf=exps[0].getPsf(), band=bands[0])
    recs = []
    for sid, parent, nch, peak, pix in spec:
        s = l.source(sid, peak, parent, nch,
                     pix=[tuple(p) for p in pix] if pix else None)
        co = l.geom.SpherePoint(10 + env.real('ra%d' % sid, -4, 4),
                                -3 + env.real('de%d' % sid, -4, 4))
        s.coord = co
        s.centroid = l.geom.Point2D(-1e4, -1e4)
        c = (np.float64(np.nan), np.float64(np.nan)) if sid in nan else (
            peak[0] + env.real('dx%d' % sid, -far, far),
            peak[1] + env.real('dy%d' % sid, -far, far))
        if sid == lost:
            c = (np.float64(-50.25), np.float64(7.5))
        want[sid] = l.geom.Point2D(c[0], c[1])
        for i, x, y in peaks:
            if i == sid:
                s.footprint.addPeak(x, y, .5)
        recs.append(s)
    truth = {}
    md = None
    if boxes is not None:
        md, truth, _ = _models(env, l, boxes, dims, xy0, nband)
        for s in recs:
            if s.id in truth:
                g = truth[s.id][1]
                s.footprint.spans = l.wcs.SpanSet(
                    [(g.origin[1] + j, g.origin[0] + i)
                     for i in range(g.shape[0]) for j in range(g.shape[1])])
    cat = l.table.SourceCatalog(recs)
    kids = [s[0] for s in spec if s[2] == 0]
    log = []

    def basic(task, source, exposure):
        log.append(source.id)
        env.check('measured on the detection image',
                  task is mtask and exposure is det)
        source.centroid = want[source.id]
    mtask = object()
    l.hooks['measure'] = basic

    class Task:
        def callMeasure(self, source, exposure, *a, **k):
            basic(self, source, exposure)
    mtask = Task()
    # faults of the stamps: no variance in the box
    before = [snap(e) for e in mb.singles]
    for sid, b, kind in fault:
        if not env.possible(env.bool('fault%d_%d' % (sid, b))):
            continue
        bb = _want_box(l, dims, xy0, _pk(recs, sid), size, False)
        mb.singles[b].variance.array[_sl(bb, xy0)] = \
            -1.0 if kind == 'negative' else 0.0
    before = [snap(e) for e in mb.singles]
    used = []

    def psf_go(runner, psf):
        im = psf.image
        return {'flags': 0, 'T': im[1, 1], 'g': np.array([.125, .25])}

    def boot(mbobs, runner, psf_runner=None):
        used.append((runner, psf_runner))
        for ol in mbobs:
            for o in ol:
                o.psf.meta['result'] = psf_go(None, o.psf)
        return _gauss(np, mbobs, data)
    ngmix.hooks.update(bootstrap=boot, psf_runner_go=psf_go,
                       fitter_go=lambda f, o, *a, **k: _moms(np, f, o, data))
    rng = env.rng()
    sb = None if shear is None else [bands[i] for i in shear]
    conf = {'pgauss': {'fwhm': fwhm}, 'stamp_size': size, 'shear_bands': sb,
            'detect': {'thresh': 5.0}, 'metacal': {}, 'deblender': 'sdss'}
    if nosrc:
        r = me.measure(mbexp=mb, detexp=None if nosrc == 'none' else det,
                       sources=[] if nosrc == 'none' else
                       l.table.SourceCatalog([]), model_data=None,
                       meas_task=mtask, config=conf, rng=rng)
        env.check('nothing was found', r is None and not log)
        return
    try:
        r = me.measure(mbexp=mb, detexp=det, sources=cat, model_data=md,
                       meas_task=mtask, config=conf, rng=rng)
    except env.mod('metadetect.lsst.util').MissingDataError:
        # sources are not lost without notice
        env.check('errors', lost is not None)
        return
    if not kids:
        env.check('nothing was found', r is None and not log)
        return
    env.check('children are measured once', sorted(log) == sorted(kids))
    env.check('a row for each', r is not None and len(r) == len(kids))
    if r is None or len(r) != len(kids):
        return
    for k, e in enumerate(mb.singles):
        for n in ('image', 'variance', 'mask'):
            env.check_eq('data unchanged', getattr(e, n).array, before[k][n])
    shi = list(range(nband)) if shear is None else sorted(shear)
    names = set(r.dtype.names)
    detbit = l.plane('DETECTED')
    for n, _ in enumerate(used):
        ru, pr = used[n]
        env.check('random numbers', pr.fitter.kw.get('rng') is rng)
    allm = me.get_bmasks(sources=cat, exposure=det)
    env.check('a mask for each', len(allm) == len(cat))
    for s, v in zip(cat, allm):
        p = s.getFootprint().getPeaks()[0]
        env.check_eq('mask at the peak', v, det.mask.array[
            p.getIy() - xy0[1], p.getIx() - xy0[0]])
    for i, sid in enumerate(log):
        o = r[i:i + 1]
        s = cat.find(sid)
        pk = _pk(recs, sid)
        bb = _want_box(l, dims, xy0, pk, size, False)
        flag, gres, pres = 0, None, None
        if bb is None:
            flag = EDGE
        else:
            mbo = ngmix.MultiBandObsList()
            try:
                for b in range(nband):
                    e = mb.singles[b]
                    if truth:
                        im = before[b]['image']
                        for t in truth:
                            if t != sid:
                                im = im - truth[t][0][b]
                        e = l.exposure(dims, xy0, im, before[b]['variance'],
                                       before[b]['mask'], e.getWcs(),
                                       e.getPsf(), bands[b])
                    ol = ngmix.ObsList()
                    ol.append(mx.extract_obs(exp=e[bb], source=s))
                    mbo.append(ol)
            except mx.AllZeroWeightError:
                flag = ZEROW
        if flag:
            gres = fi.get_wavg_output_struct(nband, 'gauss', shear_bands=shi)
            pres = fi.get_wavg_output_struct(nband, 'pgauss')
        else:
            gres = fi.fit_mbobs_gauss(
                mbobs=mbo, bmask_flags=0, rng=rng, shear_bands=shi)
            pres = fi.fit_mbobs_wavg(
                mbobs=mbo, fitter=ngmix.prepsfmom.PGaussMom(fwhm=fwhm),
                bmask_flags=0)
        env.check_eq('stamp flags', o['stamp_flags'][0], flag)
        for n in gres.dtype.names:
            if n == 'shear_bands':
                env.check(n, str(o[n][0]) == str(gres[n][0]))
            else:
                env.check_eq('column ' + n, o[n][0], gres[n][0], tol=1e-4)
        for n in pres.dtype.names:
            if 'psf' in n or n in ('pgauss_g', 'pgauss_g_cov', 'shear_bands'):
                env.check('not kept: ' + n, n == 'shear_bands'
                          or n not in names)
            else:
                env.check_eq('column ' + n, o[n][0], pres[n][0], tol=1e-4)
        c = want[sid]
        p = s.getFootprint().getPeaks()[0]
        x, y = c.x, c.y
        if sid in nan:
            x, y = p.getFx(), p.getFy()
            for n in ('row_diff', 'col_diff'):
                env.check('no offset', env.isnan(o[n][0]))
        else:
            env.check_eq('row offset', o['row_diff'][0], y - p.getIy(),
                         tol=1e-3)
            env.check_eq('column offset', o['col_diff'][0], x - p.getIx(),
                         tol=1e-3)
        env.check_eq('row', o['row'][0], y, tol=1e-3)
        env.check_eq('col', o['col'][0], x, tol=1e-3)
        env.check_eq('row0', o['row0'][0], xy0[1])
        env.check_eq('col0', o['col0'][0], xy0[0])
        env.check_eq('stamp size', o['stamp_size'][0], size)
        sky = mb.singles[0].getWcs().pixelToSky(l.geom.Point2D(x, y))
        env.check_eq('ra', o['ra'][0], sky.ra)
        env.check_eq('dec', o['dec'][0], sky.dec)
        mv = det.mask.array[p.getIy() - xy0[1], p.getIx() - xy0[0]]
        env.check_eq('bmask', o['bmask'][0], mv & ~detbit)


def _pk(recs, sid):
    for s in recs:
        if s.id == sid:
            p = s.footprint.getPeaks()[0]
            return (p.getIx(), p.getIy())
