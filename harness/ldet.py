"""detection and deblending (metadetect/lsst/measure.py)"""
import copy

from .lcommon import L, snap
from .lmcal import BANDS

STATS = ['BAD', 'BRIGHT', 'DETECTED', 'DETECTED_NEGATIVE', 'EDGE', 'NO_DATA']
EXCL = ['BRIGHT', 'EDGE', 'NO_DATA']


class Res:
    pass


def detect(env, nband=1, deblender='sdss', found='some', cls='ExposureF',
           dims=(1, 2), xy0=(0, 0), settings=None, default=False, med=2,
           seed=None, none=False, nobj=2):
    """settings: other detection settings; none: a coadd can not be made"""
    l = L(env)
    np = env.np
    me = env.mod('metadetect.lsst.measure')
    ut = env.mod('metadetect.lsst.util')
    env.median_limit(med)
    bands = BANDS[3 - nband:3] if nband < 4 else BANDS[:nband]
    exps = []
    for b in range(nband):
        p = env.arr_real('p%d' % b, (3, 3), 1 / 4, 4)
        e = l.anyexp('e%d' % b, dims, xy0, planes='im', wcs=l.affine(),
                     psf=l.psf(p), band=bands[b], cls=cls)
        e.variance.array[:, :] = np.inf if none else env.arr_real(
            'va%d' % b, dims, 1 / 4, 100)
        exps.append(e)
    mb = l.full(exps)
    before = [snap(e) for e in mb.singles]
    th = 5.0 if default else env.real('thresh', 1 / 8, 1000)
    kw = {} if default else {'thresh': th}
    if settings is not None:
        kw['config'] = copy.deepcopy(settings)
    rng = None
    if seed is None:
        rng = kw['rng'] = env.rng()
    task = me.get_detect_and_deblend_task(deblender=deblender, **kw)
    env.check('settings sent are kept',
              settings is None or kw['config'] == settings)
    if rng is not None:
        env.check('random numbers', task.rng is rng)
    recs = [l.source(k, (xy0[0], xy0[1])) for k in (4, 9)[:nobj]]
    cat = l.table.SourceCatalog(recs if found == 'some' else [])
    out = l.table.SourceCatalog([l.source(11, (xy0[0], xy0[1]))])
    model = Res()
    log, seen = [], {}

    def detection(t, table, e):
        log.append('detect')
        c = t.config
        env.check_eq('threshold', c.thresholdValue, th)
        env.check('threshold type', c.thresholdType == 'stdev'
                  and c.thresholdPolarity == 'positive'
                  and c.includeThresholdMultiplier == 1.0)
        env.check('no background', c.reEstimateBackground is False
                  and c.adjustBackground == 0.0
                  and c.doApplyFlatBackgroundRatio is False)
        env.check('bad pixels', sorted(c.excludeMaskPlanes) == EXCL
                  and sorted(c.statsMask) == STATS)
        n = 3 if settings else 1
        env.check('settings', c.minPixels == n)
        env.check('schema', table.schema is t.schema)
        seen['det'] = e
        if found == 'none':
            return None
        r = Res()
        r.sources = cat
        return r

    def deblend(t, e, sources):
        log.append('deblend')
        env.check('deblended', e is seen['det'] and sources is cat)
        env.check('no limit', t.config.maxFootprintArea == 0)
        seen['schema'] = t.schema

    def deconvolve(t, e, sources, band):
        k = [x is e for x in mb.singles].index(True)
        log.append('deconvolve%d' % k)
        env.check('sources', sources is cat and band == bands[k])
        d = l.exposure(dims, xy0, image=100.0 + k, wcs=e.getWcs(),
                       psf=e.getPsf(), band=band)
        r = Res()
        r.deconvolved = d
        return r

    def scarlet(t, m, d, s):
        log.append('scarlet')
        env.check('deblended', m is mb and s is cat)
        env.check('no limit', t.config.maxFootprintArea == 0)
        env.check('deconvolved', tuple(d.bands) == tuple(bands) and all(
            float(d.singles[k].image.array[0, 0]) == 100.0 + k
            for k in range(nband)))
        r = Res()
        r.scarletModelData, r.deblendedCatalog = model, out
        return r

    def update(**k):
        log.append('update')
        env.check('footprints', k['modelData'] is model
                  and k['catalog'] is out)
        env.check('models are kept', not k.get('removeScarletData', True))
    l.hooks.update(detection=detection, deblend=deblend,
                   deconvolve=deconvolve, scarlet=scarlet,
                   update_footprints=update)
    s, det, md = task.run(mbexp=mb)
    for e, x in zip(mb.singles, before):
        for n in x:
            env.check_eq('input kept', getattr(e, n).array, x[n])
    if none:
        env.check('no detection image', len(s) == 0 and det is None
                  and md is None and not log)
        return
    env.check('detection image', det is seen['det']
              and isinstance(det, l.image.ExposureF))
    if nband == 1:
        env.check('single band', (det is mb.singles[0]) ==
                  (cls == 'ExposureF'))
        w = before[0]
    else:
        c = ut.coadd_exposures(mb.singles)
        w = snap(c)
        env.check_eq('psf of the detection image',
                     det.getPsf().computeKernelImage(None).array,
                     c.getPsf().computeKernelImage(None).array, tol=1e-5)
    for n in w:
        env.check_eq('detection ' + n, getattr(det, n).array, w[n],
                     tol=1e-3)
    env.check('place', det.getBBox() == exps[0].getBBox()
              and det.getWcs() is exps[0].getWcs())
    if deblender == 'sdss':
        env.check('steps', log == ['detect'] + (
            ['deblend'] if found != 'none' else []))
        env.check('sources', s is cat if found != 'none' else len(s) == 0)
        env.check('no models', md is None)
        return
    if found == 'none':
        env.check('steps', log == ['detect'])
        env.check('no sources', len(s) == 0 and md is None)
        return
    env.check('steps', log == ['detect'] + [
        'deconvolve%d' % k for k in range(nband)] + ['scarlet', 'update'])
    env.check('sources', s is out)
    env.check('models', md is model)
