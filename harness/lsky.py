"""sky subtraction (metadetect/lsst/skysub.py)"""
import copy

from .common import pixels  # noqa
from .lcommon import L, snap
from .lmcal import BANDS

STATS = ['BAD', 'EDGE', 'DETECTED', 'DETECTED_NEGATIVE', 'NO_DATA', 'BRIGHT']


class Sky:
    """background subtraction and detection, with faults: at call number n
    (counted over both) an error of a kind"""

    def __init__(self, env, l, exps, nmax, fault=None, found=None):
        self.found = found
        self.env, self.l, self.exps = env, l, exps
        self.log, self.n = [], 0
        self.sky = {k: [env.real('sky%d_%d' % (k, i), -100, 100)
                        for i in range(nmax)] for k in range(len(exps))}
        self.count = [0] * len(exps)
        self.fault = fault
        base = env.mod('lsst.pipe.base')
        self.kinds = {'lsst': l.exc.RuntimeError, 'task': base.TaskError,
                      'other': KeyError}
        l.hooks['background'] = self.back
        l.hooks['detection'] = self.detect

    def which(self, e):
        for k, x in enumerate(self.exps):
            if x is e:
                return k
        self.env.check('exposures of the input', False)

    def step(self, what, k, task):
        self.log.append((what, k))
        self.n += 1
        if self.fault is not None and self.fault[0] == self.n - 1:
            raise self.kinds[self.fault[1]]('x')

    def back(self, task, e):
        k = self.which(e)
        self.env.check('pixels ignored', sorted(
            task.config.ignoredPixelMask) == sorted(STATS))
        self.step('back', k, task)
        v = self.sky[k][self.count[k]]
        self.count[k] += 1
        e.image.array[:, :] = e.image.array - v
        e.getMetadata()['BGMEAN'] = v
        return ('background', k, self.count[k])

    def detect(self, task, table, e):
        k = self.which(e)
        self.env.check('no background in detection',
                       task.config.reEstimateBackground is False)
        self.thresh(task.config.thresholdValue)
        self.step('detect', k, task)
        self.last = ('sources', k, self.count[k])
        if self.found == 'any' and self.env.choose('found%d' % self.n, 2):
            # nothing was found
            self.last = None
        return self.last


def _exps(env, l, dims, nband):
    return [l.anyexp('e%d' % b, dims, wcs=l.affine(), psf=None,
                     band=BANDS[b]) for b in range(nband)]


def _after(env, e, s, sky):
    env.check_eq('sky is subtracted', e.image.array, s['image'] - sum(sky))
    env.check_eq('variance kept', e.variance.array, s['variance'])
    env.check_eq('mask kept', e.mask.array, s['mask'])


def iterate(env, niter=2, dims=(1, 2), fault=None, how='function',
            given=True, found=None):
    """iterations of sky subtraction and detection"""
    l = L(env)
    ss = env.mod('metadetect.lsst.skysub')
    e, = _exps(env, l, dims, 1)
    s = snap(e)
    S = Sky(env, l, [e], max(niter, 2), fault, found)
    th = env.real('thresh', 1 / 4, 100)
    S.thresh = lambda v: env.check_eq('threshold', v, th)
    kw = {'niter': niter} if given else {}
    mine = {'detect': {'minPixels': 3}}
    if how == 'function' and fault is None:
        kw['config'] = copy.deepcopy(mine)
    try:
        if how == 'function':
            r = ss.iterate_detection_and_skysub(e, th, **kw)
        else:
            c = ss.IterateDetectionSkySubConfig()
            c.detect.thresholdValue = th
            if given:
                c.niter = niter
            r = ss.IterateDetectionSkySubTask(config=c).run(e)
        err = None
    except (ValueError, KeyError) as x:
        err = type(x)
    env.check('settings sent are kept', kw.get('config', mine) == mine)
    n = niter if given else 2
    if n < 1:
        env.check('at least one iteration', err is ValueError)
        env.check('nothing is done', not S.log)
        return
    want = [('back', 0), ('detect', 0)] * n
    if fault is not None and fault[0] < 2 * n:
        env.check('stops at the error', S.log == want[:fault[0] + 1])
        _after(env, e, s, S.sky[0][:S.count[0]])
        if fault[1] == 'other':
            env.check('other errors are passed on', err is KeyError)
        else:
            env.check('no result after an error', err is None and r is None)
        return
    env.check('no error', err is None)
    env.check('steps', S.log == want)
    env.check('result of the last detection', r == S.last
              and (r is None or r == ('sources', 0, n)))
    _after(env, e, s, S.sky[0][:n])
    env.check_eq('total sky', e.getMetadata()['BGMEAN'], sum(S.sky[0][:n]))


def bands(env, nband, dims=(1, 2), fault=None, conf=None, found=None):
    """all bands are subtracted, also those after one that fails"""
    l = L(env)
    ss = env.mod('metadetect.lsst.skysub')
    mb = l.full(_exps(env, l, dims, nband))
    exps = mb.singles
    before = [snap(e) for e in exps]
    S = Sky(env, l, exps, 3, fault, found)
    th = env.real('thresh', 1 / 4, 100)
    S.thresh = lambda v: env.check_eq('threshold', v, th)
    n = 2
    kw = {'thresh': th}
    if conf == 'niter':
        n = 3
        conf = {'iterate_detection_and_skysub': {'niter': 3}}
        kw['config'] = copy.deepcopy(conf)
    elif conf == 'default':
        del kw['thresh']
        S.thresh = lambda v: env.check_eq('default threshold', v, 5.0)
    ss.subtract_sky_mbexp(mb, **kw)
    env.check('settings sent are kept', kw.get('config', conf) == conf)
    want = []
    for k in range(nband):
        for what in ['back', 'detect'] * n:
            want.append((what, k))
            if fault is not None and fault[0] == len(want) - 1:
                break
    env.check('steps', S.log == want)
    for k, e in enumerate(exps):
        _after(env, e, before[k], S.sky[k][:S.count[k]])
        if fault is None:
            env.check_eq('total sky', e.getMetadata()['BGMEAN'],
                         sum(S.sky[k][:n]))


def once(env, dims=(2, 2)):
    l = L(env)
    ss = env.mod('metadetect.lsst.skysub')
    e, = _exps(env, l, dims, 1)
    s = snap(e)
    S = Sky(env, l, [e], 1)
    r = ss.determine_and_subtract_sky(e)
    env.check('background', r == ('background', 0, 1))
    env.check('once', S.log == [('back', 0)])
    _after(env, e, s, S.sky[0])
