"""data of several bands, and psf images (metadetect/lsst/util.py)"""
from .common import pixels
from .lcommon import L, snap
from .lmcal import BANDS


class Psf:
    """a psf that can fail"""

    def __init__(self, l, image, fail=None, clones=True, log=None):
        self.l, self.image, self.fail = l, image, fail
        self.clones, self.log, self.parent = clones, log, None

    def computeKernelImage(self, pos=None):
        if self.log is not None:
            self.log.append((pos.x, pos.y))
        if self.fail is not None:
            raise self.fail('x')
        return self.l.image.ImageD(self.l.np.asarray(self.image))

    def clone(self):
        if not self.clones:
            raise RuntimeError('can not')
        o = Psf(self.l, self.image, self.fail, True, self.log)
        o.parent = self
        return o


def _same(env, what, e, s, o, mask=True, image=True):
    """e has the pixels s, and the place, wcs and band of o"""
    for n in ('image', 'variance', 'mask'):
        w = s[n]
        if (n == 'mask' and not mask) or (n == 'image' and not image):
            w = w * 0
        env.check_eq('%s: %s' % (what, n), getattr(e, n).array, w)
    env.check('%s: place' % what, e.getBBox() == o.getBBox())
    env.check('%s: wcs' % what, e.getWcs() is o.getWcs())
    env.check('%s: band' % what,
              e.getFilter().bandLabel == o.getFilter().bandLabel)


def _exps(env, l, name, dims, nband, xy0, cls='ExposureF', order=None):
    w = [l.affine(x0=k) for k in range(nband)]
    names = order or BANDS[:nband]
    return [l.anyexp('%s%d' % (name, k), dims, xy0, wcs=w[k], cls=cls,
                     psf=Psf(l, None), band=names[k]) for k in range(nband)]


def coadds(env, nband=2, dims=(2, 2), xy0=(0, 0), order=None):
    """the coadds of the bands of a simulation"""
    l = L(env)
    ut = env.mod('metadetect.lsst.util')
    keys = [('coadd_exp', 'mbexp'), ('coadd_noise_exp', 'noise_mbexp'),
            ('coadd_mfrac_exp', 'mfrac_mbexp')]
    E = {k: _exps(env, l, k[6:8], dims, nband, xy0, order=order)
         for k, _ in keys}
    S = {k: [snap(e) for e in E[k]] for k in E}
    lst = [{k: E[k][b] for k in E} for b in range(nband)]
    r = ut.extract_multiband_coadd_data(lst)
    env.check('items', sorted(r) == sorted(
        ['mbexp', 'noise_mbexp', 'mfrac_mbexp', 'ormasks']))
    env.check('number of masks', len(r['ormasks']) == nband)
    for k, out in keys:
        mb = r[out]
        env.check('bands', tuple(mb.bands) == tuple(order or BANDS[:nband])
                  and len(mb.singles) == nband)
        for b, e in enumerate(mb.singles):
            _same(env, out, e, S[k][b], E[k][b], mask=False)
            env.check('psf', e.getPsf() is E[k][b].getPsf())
    for b in range(nband):
        env.check_eq('ormask', r['ormasks'][b], S['coadd_exp'][b]['mask'])
    # the masks are copies
    for out in ('mbexp', 'noise_mbexp', 'mfrac_mbexp'):
        for e in r[out].singles:
            e.mask.array[:, :] = 77
    for k in E:
        for e in E[k]:
            e.mask.array[:, :] = 78
    for b in range(nband):
        env.check_eq('ormask is a copy', r['ormasks'][b],
                     S['coadd_exp'][b]['mask'])


def copies(env, nband=2, dims=(2, 2), xy0=(0, 0), clear=None, cls='ExposureF',
           noclone=(), order=None):
    """a copy shares nothing that is changed"""
    l = L(env)
    ut = env.mod('metadetect.lsst.util')
    exps = _exps(env, l, 'e', dims, nband, xy0, cls, order)
    for k in noclone:
        exps[k].getPsf().clones = False
    first = [snap(e) for e in exps]
    mb = ut.get_mbexp(exps)
    for b, e in enumerate(mb.singles):
        _same(env, 'multiband', e, first[b], exps[b])
        env.check('psf', e.getPsf() is exps[b].getPsf())
        env.check('type', type(e) is type(exps[b]))
    env.check('bands', tuple(mb.bands) == tuple(order or BANDS[:nband]))
    kw = {} if clear is None else {'clear': clear}
    new = ut.copy_mbexp(mb, **kw)
    env.check('bands', new.bands == mb.bands)
    for b, e in enumerate(new.singles):
        _same(env, 'copy', e, first[b], exps[b], image=not clear)
        p, q = e.getPsf(), exps[b].getPsf()
        env.check('psf of the copy', p is q if b in noclone else p.parent is q)
        _same(env, 'the copied', mb.singles[b], first[b], exps[b])
        env.check('psf of the copied', mb.singles[b].getPsf() is q)
    for e in new.singles:
        e.image.array[:, :] = 5
        e.variance.array[:, :] = 6
        e.mask.array[:, :] = 7
    for b in range(nband):
        _same(env, 'after changes of the copy', mb.singles[b], first[b],
              exps[b])
        _same(env, 'input', exps[b], first[b], exps[b])


def deconvolved(env, nband=2, dims=(1, 2), xy0=(2, 3)):
    l = L(env)
    ut = env.mod('metadetect.lsst.util')
    exps = _exps(env, l, 'e', dims, nband, xy0)
    mb = ut.get_mbexp(exps)
    d = _exps(env, l, 'd', dims, nband, xy0)
    first, dec = [snap(e) for e in exps], [snap(e) for e in d]
    cat = object()
    log = []

    class R:
        pass

    def run(task, e, sources, band):
        k = [x is e for x in mb.singles].index(True)
        log.append(k)
        env.check('catalog', sources is cat)
        env.check('band', band == BANDS[k])
        r = R()
        r.deconvolved = d[k]
        return r
    l.hooks['deconvolve'] = run
    out = ut.make_deconvolved_mbexp(mb, cat)
    env.check('each band', log == list(range(nband)))
    env.check('bands', out.bands == mb.bands)
    for b in range(nband):
        _same(env, 'deconvolved', out.singles[b], dec[b], d[b])
        _same(env, 'input', mb.singles[b], first[b], exps[b])


def trim(env, dims):
    """the largest square around the central pixel"""
    np = env.np
    ut = env.mod('metadetect.lsst.util')
    im = env.arr_real('im', dims, -100, 100)
    c = im.copy()
    odd = dims[0] % 2 == 1 and dims[1] % 2 == 1
    try:
        r = ut.trim_odd_image(im)
        err = False
    except AssertionError:
        err = True
    env.check_eq('input kept', im, c)
    env.check('even sizes are refused',
              err == (not odd and dims[0] != dims[1]))
    if err:
        return
    n = min(dims)
    env.check('size', tuple(r.shape) == (n, n))
    a, b = (dims[0] - n) // 2, (dims[1] - n) // 2
    env.check_eq('pixels', r, np.array(
        [[c[a + i, b + j] for j in range(n)] for i in range(n)]))


def psfimage(env, dims, fail=None, fix=False):
    """psf images at a position"""
    l = L(env)
    ut = env.mod('metadetect.lsst.util')
    im = env.arr_real('psf', dims, -1, 1)
    log = []
    kinds = {'invalid': l.exc.InvalidParameterError, 'other': KeyError}
    e = l.anyexp('e', (2, 2), planes='')
    e.setPsf(Psf(l, im, fail=kinds.get(fail), log=log))
    x, y = env.real('x', -100, 100), env.real('y', -100, 100)
    f = ut._extract_psf_image_fix if fix else ut.extract_psf_image
    err = None
    try:
        r = f(e, l.geom.Point2D(x, y))
    except (ut.MissingDataError, KeyError, AssertionError) as z:
        err = type(z)
    env.check('drawn once', len(log) == 1)
    env.check_eq('x', log[0][0], x)
    env.check_eq('y', log[0][1], y)
    odd = dims[0] % 2 == 1 and dims[1] % 2 == 1
    sq = dims[0] == dims[1]
    if fail is not None:
        env.check('errors', err is (ut.MissingDataError if fail == 'invalid'
                                    else KeyError))
        return
    if fix:
        bad = not sq and not odd
    else:
        bad = not (sq and odd)
    env.check('bad shapes are refused', (err is AssertionError) == bad)
    if bad or err is not None:
        return
    n = min(dims)
    a, b = (dims[0] - n) // 2, (dims[1] - n) // 2
    env.check('size', tuple(r.shape) == (n, n))
    for i, j in pixels((n, n)):
        env.check_eq('pixels', r[i, j], im[a + i, b + j], tol=1e-4)
