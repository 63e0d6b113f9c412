"""stamps around sources (metadetect/lsst: util, MBObsExtractor,
ModelSubtractor)"""
import itertools

from .common import pixels  # noqa
from .lcommon import L, snap
from .lmcal import jac_at, BANDS


class _Src:
    def __init__(self, peak):
        self.peak = peak

    def getFootprint(self):
        return self

    def getPeaks(self):
        return [self.peak]

    def getId(self):
        return 7


class _Exp:
    def __init__(self, bbox):
        self.bbox = bbox

    def getBBox(self):
        return self.bbox


def box(env, clip, which='util', off=False):
    """the box around the peak, for any position and size; off: the peak can
    be off the image, but the box is not"""
    l = L(env)
    ut = env.mod('metadetect.lsst.util')
    g = l.geom
    x, y = env.int('x', -5000, 5000), env.int('y', -5000, 5000)
    s = env.int('size', 0, 400)
    x0, y0 = env.int('x0', -5000, 5000), env.int('y0', -5000, 5000)
    nx, ny = env.int('nx', 1, 4000), env.int('ny', 1, 4000)
    bb = g.Box2I()
    bb.x0, bb.y0, bb.nx, bb.ny = x0, y0, nx, ny
    # the peak is in the exposure
    h = s // 2 if off else 0
    for c in (x0 <= x + h, x - h < x0 + nx, y0 <= y + h, y - h < y0 + ny):
        env.assume(c)
    pk = l.det.PeakRecord(0.0, 0.0, ix=x, iy=y)
    src = _Src(pk)
    r = s // 2
    fits = env.And(x - r >= x0, y - r >= y0, x + r < x0 + nx,
                   y + r < y0 + ny)
    env.patch('lsst.geom', 'Point2I', _point(g))
    try:
        if which == 'util':
            b = ut.get_bbox(_Exp(bb), src, s, clip=clip)
        else:
            ms = env.mod('metadetect.lsst.model_subtractor')
            sub = ms.ModelSubtractor.__new__(ms.ModelSubtractor)
            sub.mbexp = _Exp(bb)
            sub.heavies = {7: None}
            sub.footprints = {7: src}
            b = sub.get_bbox(7, stamp_size=s, clip=clip)
        err = False
    except l.exc.LengthError:
        err = True
    if not clip:
        env.check('error iff it does not fit',
                  env.Not(fits) if err else fits)
        if err:
            return
        want = (x - r, y - r, x + r + 1, y + r + 1)
    else:
        env.check('always available when clipped', not err)
        if err:
            return
        mx = lambda a, b: env.ite(a > b, a, b)  # noqa
        mn = lambda a, b: env.ite(a < b, a, b)  # noqa
        want = (mx(x - r, x0), mx(y - r, y0), mn(x + r + 1, x0 + nx),
                mn(y + r + 1, y0 + ny))
    got = (b.getBeginX(), b.getBeginY(), b.getEndX(), b.getEndY())
    for n, u, v in zip(('x0', 'y0', 'x1', 'y1'), got, want):
        env.check_eq('box ' + n, u, v)
    env.check_eq('exposure unchanged', bb.nx, nx)


def _point(g):
    class P(g.Point2I):
        def _conv(self, v):
            return v
    return P


def _exps(env, l, dims, nband, xy0, planes='ivm'):
    exps = []
    for b in range(nband):
        p = env.np.zeros((3, 3)) + 1 + b
        p[1, 1] = 10.0
        exps.append(l.anyexp('e%d' % b, dims, xy0, planes=planes, vlo=1,
                             wcs=l.affine(x0=3 + b), psf=l.posPsf(p),
                             band=BANDS[b]))
    return exps


def _stamp_of(env, mb, want, bb, xy0, bands, label, wcss=None):
    """want: list of dicts of arrays of the whole image"""
    env.check(label + ' bands', tuple(mb.bands) == tuple(bands))
    for k, e in enumerate(mb.singles):
        env.check(label + ' box', e.getBBox() == bb)
        env.check(label + ' filter', e.getFilter().bandLabel == bands[k])
        sl = _sl(bb, xy0)
        for n in ('image', 'variance', 'mask'):
            env.check_eq(label + ' ' + n, getattr(e, n).array,
                         want[k][n][sl])
        if wcss is not None:
            env.check(label + ' wcs', e.getWcs() is wcss[k])


def _sl(bb, xy0):
    return (slice(bb.getBeginY() - xy0[1], bb.getEndY() - xy0[1]),
            slice(bb.getBeginX() - xy0[0], bb.getEndX() - xy0[0]))


def _want_box(l, dims, xy0, peak, size, clip):
    r = size // 2
    a = [peak[0] - r, peak[1] - r, peak[0] + r + 1, peak[1] + r + 1]
    lim = [xy0[0], xy0[1], xy0[0] + dims[1], xy0[1] + dims[0]]
    fits = a[0] >= lim[0] and a[1] >= lim[1] and a[2] <= lim[2] \
        and a[3] <= lim[3]
    if not fits:
        if not clip:
            return None
        a = [max(a[0], lim[0]), max(a[1], lim[1]),
             min(a[2], lim[2]), min(a[3], lim[3])]
    g = l.geom
    return g.Box2I(g.Point2I(a[0], a[1]),
                   g.Extent2I(a[2] - a[0], a[3] - a[1]))


def _medinv(env, v):
    np = env.np
    return 1 / np.median(v.ravel())


def _obs_of(env, mbobs, want, bb, xy0, wcss, psfs, src, bands, label):
    """observations made from the pixels in a box"""
    np = env.np
    env.check(label + ' number of bands', len(mbobs) == len(want))
    sl = _sl(bb, xy0)
    for k, ol in enumerate(mbobs):
        env.check(label + ' one per band', len(ol) == 1)
        env.check(label + ' band', ol.meta['band'] == bands[k])
        o = ol[0]
        w = want[k]
        env.check_eq(label + ' image', o.image, w['image'][sl])
        env.check_eq(label + ' bmask', o.bmask, w['mask'][sl])
        wt = np.zeros(o.image.shape) + _medinv(env, w['variance'][sl])
        env.check_eq(label + ' weight', o.weight, wt)
        wcs = wcss[k]
        p = wcs.skyToPixel(src.getCoord())
        j = jac_at(env, wcs, p.x, p.y)
        J = o.jacobian
        env.check_eq(label + ' row', J.row0, p.y - bb.getBeginY())
        env.check_eq(label + ' col', J.col0, p.x - bb.getBeginX())
        for oo in (o, o.psf):
            for n, v in zip(('dudcol', 'dudrow', 'dvdcol', 'dvdrow'), j):
                env.check_eq(label + ' jacobian', getattr(oo.jacobian, n), v)
        c = src.getCentroid()
        pim = psfs[k].at(c.x, c.y)
        env.check_eq(label + ' psf', o.psf.image, pim)
        env.check_eq(label + ' psf centre', o.psf.jacobian.row0, 1.0)
        env.check_eq(label + ' psf centre', o.psf.jacobian.col0, 1.0)
        env.check(label + ' psf weight', env.And(
            *[v > 0 for v in o.psf.weight.ravel()]))


def _sources(env, l, spec):
    """spec: list of [id, parent, nchild, (x, y), pixels or None]"""
    out = []
    for sid, parent, nch, peak, pix in spec:
        cen = (peak[0] + env.real('dx%d' % sid, -1, 1),
               peak[1] + env.real('dy%d' % sid, -1, 1))
        co = (10 + env.real('ra%d' % sid, -4, 4),
              -3 + env.real('de%d' % sid, -4, 4))
        out.append(l.source(sid, peak, parent, nch, cen, co,
                            pix=[tuple(p) for p in pix] if pix else None))
    return l.table.SourceCatalog(out)


def plain(env, dims, spec, size, nband=2, xy0=(0, 0), clip=False,
          how='stamp'):
    """stamps of the original data, of children only"""
    l = L(env)
    ut = env.mod('metadetect.lsst.util')
    mx = env.mod('metadetect.lsst.mbobs_extractor')
    exps = _exps(env, l, dims, nband, xy0)
    mb = l.full(exps)
    wcss = [e.getWcs() for e in exps]
    psfs = [e.getPsf() for e in exps]
    before = [snap(e) for e in exps]
    cat = _sources(env, l, spec)
    ex = mx.MBObsExtractor(mb, cat)
    kids = [s[0] for s in spec if s[2] == 0]
    env.check('children', sorted(ex.child_ids()) == sorted(kids))
    env.check('children', sorted(s.getId() for s in ex.children())
              == sorted(kids))
    env.check('children are of the catalogue',
              all(cat.find(s.getId()) is s for s in ex.children()))
    for s in spec + [[99, 0, 0, (0, 0), None]]:
        sid = s[0]
        for f in (lambda: ex.get_stamp(sid, size),
                  lambda: ex.get_mbobs(sid, size),
                  lambda: ex.add_source(sid).__enter__()):
            if sid in kids:
                continue
            try:
                f()
                ok = True
            except ValueError:
                ok = False
            env.check('only children', not ok)
    for s in spec:
        if s[2] != 0:
            continue
        bb = _want_box(l, dims, xy0, s[3], size, clip)
        src = cat.find(s[0])
        with ex.add_source(s[0]):
            for f in ('stamp', 'mbobs', 'util'):
                try:
                    if f == 'stamp':
                        r = ex.get_stamp(s[0], size, clip=clip)
                    elif f == 'mbobs':
                        r = ex.get_mbobs(s[0], size, clip=clip)
                    else:
                        r = ut.get_stamp_mbobs(mb, src, size, clip=clip)
                except l.exc.LengthError:
                    r = None
                env.check('error iff it does not fit',
                          (r is None) == (bb is None))
                if r is None or bb is None:
                    continue
                if f == 'stamp':
                    _stamp_of(env, r, before, bb, xy0, BANDS[:nband],
                              'stamp', wcss)
                    for e in r.singles:
                        e.image.array[:, :] = -1.0
                        e.variance.array[:, :] = -1.0
                        e.mask.array[:, :] = 0
                else:
                    _obs_of(env, r, before, bb, xy0, wcss, psfs, src,
                            BANDS[:nband], f)
    for e, b in zip(mb.singles, before):
        for n in ('image', 'variance', 'mask'):
            env.check_eq('data are copied', getattr(e, n).array, b[n])


# models ------------------------------------------------------------------

class _SBox:
    """a box of scarlet: origin (y, x), shape (ny, nx)"""
    def __init__(self, origin, shape):
        self.origin, self.shape = tuple(origin), tuple(shape)

    def grow(self, n):
        return _SBox([o - k for o, k in zip(self.origin, n)],
                     [s + 2 * k for s, k in zip(self.shape, n)])

    def __and__(self, o):
        a = [max(x, y) for x, y in zip(self.origin, o.origin)]
        b = [min(x + s, y + t) for x, s, y, t in zip(
            self.origin, self.shape, o.origin, o.shape)]
        return _SBox(a, [max(y - x, 0) for x, y in zip(a, b)])


class _SImage:
    def __init__(self, np, data, yx0, conv=False):
        self.np = np
        self.data, self.yx0, self.conv = data, tuple(yx0), conv
        self.n_bands = data.shape[0]
        self.dtype = data.dtype

    def project(self, bbox=None):
        d = self.np.zeros((self.n_bands,) + bbox.shape)
        for i in range(bbox.shape[0]):
            for j in range(bbox.shape[1]):
                a = i + bbox.origin[0] - self.yx0[0]
                b = j + bbox.origin[1] - self.yx0[1]
                if 0 <= a < self.data.shape[1] and (
                        0 <= b < self.data.shape[2]):
                    d[:, i, j] = self.data[:, a, b]
        return _SImage(self.np, d, bbox.origin)


class _SObs:
    def __init__(self, env, psfs, bbox, bands, log):
        self.env, self.psfs, self.bbox, self.bands = env, psfs, bbox, bands
        self.log = log

    def convolve(self, model, mode=None):
        """a convolution: moves part of the light one pixel over"""
        self.log.append(mode)
        d = model.data * 0.5
        for k in range(d.shape[0]):
            for i in range(d.shape[1]):
                for j in range(1, d.shape[2]):
                    d[k, i, j] = d[k, i, j] + model.data[k, i, j - 1] * (
                        0.25 / (1 + k))
        return _SImage(self.env.np, d, model.yx0, True)


class _SSource:
    def __init__(self, sid, center, bbox, model):
        self.metadata = {'id': sid}
        self.center, self.bbox, self.model = center, bbox, model

    def get_model(self, use_flux=False):
        assert not use_flux
        return self.model


class _NS:
    def __init__(self, **kw):
        self.__dict__.update(kw)


def _models(env, l, spec, dims, xy0, nband, psfdim=(3, 3),
            neg=False):
    """spec: [id, (x0, y0), (nx, ny)] boxes of the models; returns the model
    data of scarlet and the convolved models over the image"""
    np = env.np
    bands = BANDS[:nband]
    log = []
    obsbox = _SBox((xy0[1], xy0[0]), dims)
    psfs = np.ones((nband,) + tuple(psfdim))
    blends = {}
    truth = {}
    for i, (sid, o, n) in enumerate(spec):
        d = env.arr_real('m%d' % sid, (nband, n[1], n[0]),
                         -100 if neg else 0, 100)
        b = _SBox((o[1], o[0]), (n[1], n[0]))
        im = _SImage(np, d, b.origin)
        src = _SSource(sid, (o[1], o[0]), b, im)
        # written out: the light within the image after convolution
        grown = b.grow((psfdim[0] // 2, psfdim[1] // 2)) & obsbox
        c = _SObs(env, psfs, obsbox, bands, []).convolve(
            im.project(bbox=grown))
        t = np.zeros((nband,) + tuple(dims))
        y, x = grown.origin[0] - xy0[1], grown.origin[1] - xy0[0]
        t[:, y:y + grown.shape[0], x:x + grown.shape[1]] = c.data
        truth[sid] = (t, grown)

        def tob(model_psf=None, psf=None, bands=None, src=src):
            env.check('psf of the model', model_psf.shape == (1, 5, 5)
                      and psf is md.metadata['psf'])
            return _NS(sources=[src], observation=_SObs(
                env, psfs, obsbox, tuple(bands), log))
        bd = _NS(minimal_data_to_blend=tob)
        # blends of one or two sources
        blends.setdefault(i // 2, {})[sid] = bd
    md = _NS(metadata={'bands': tuple(bands), 'model_psf': np.ones((5, 5)),
                       'psf': object()},
             blends={k: _NS(children=v) for k, v in blends.items()})
    return md, truth, log


def models(env, dims, spec, boxes, nband=2, xy0=(0, 0), size=3, clip=False,
           fail=True, neg=False, psf=(3, 3)):
    """models are subtracted, and put back one at a time"""
    l = L(env)
    np = env.np
    ms = env.mod('metadetect.lsst.model_subtractor')
    exps = _exps(env, l, dims, nband, xy0, planes='i')
    mb = l.full(exps)
    wcss = [e.getWcs() for e in exps]
    psfs = [e.getPsf() for e in exps]
    before = [snap(e) for e in exps]
    md, truth, log = _models(env, l, boxes, dims, xy0, nband, psf, neg=neg)
    # the footprint of a source is that of its convolved model
    full = []
    for sid, parent, nch, peak, pix in spec:
        if sid in truth:
            g = truth[sid][1]
            pix = [(g.origin[1] + j, g.origin[0] + i) for i, j in
                   itertools.product(*map(range, g.shape))]
        full.append([sid, parent, nch, peak, pix])
    cat = _sources(env, l, full)
    bands = BANDS[:nband]
    sub = ms.ModelSubtractor(mb, cat, md)
    kids = [b[0] for b in boxes]
    env.check('children', sorted(sub.child_ids()) == sorted(kids)
              and sorted(s.getId() for s in sub.children()) == sorted(kids))
    env.check('real space', all(m == 'real' for m in log))

    def want(but=()):
        out = []
        for k in range(nband):
            d = {n: v for n, v in before[k].items()}
            im = d['image']
            for sid in kids:
                if sid not in but:
                    im = im - truth[sid][0][k]
            d['image'] = im
            out.append(d)
        return out

    def state(label, but=()):
        for k, w in enumerate(want(but)):
            e = sub.mbexp.singles[k]
            env.check_eq(label, e.image.array, w['image'])
            env.check_eq(label + ' variance', e.variance.array,
                         w['variance'])
            env.check_eq(label + ' mask', e.mask.array, w['mask'])
    state('models subtracted')
    for sid in [s[0] for s in spec if s[0] not in kids] + [99]:
        for f in (lambda: sub.get_stamp(sid, size),
                  lambda: sub.get_mbobs(sid, size),
                  lambda: sub.get_model(sid),
                  lambda: sub.get_bbox(sid, size),
                  lambda: sub.add_source(sid).__enter__()):
            try:
                f()
                ok = True
            except ValueError:
                ok = False
            env.check('only children', not ok)
    for s in full:
        sid = s[0]
        if sid not in kids:
            continue
        src = cat.find(sid)
        bb = _want_box(l, dims, xy0, s[3], size, clip)
        err = False
        try:
            with sub.add_source(sid) as got:
                env.check('yields the data', got is sub.mbexp)
                state('one put back', but=[sid])
                w = want([sid])
                orig = before
                for ty, ww in (('deblended', w), ('original', orig)):
                    try:
                        r = sub.get_stamp(sid, size, clip=clip, type=ty)
                        o = sub.get_mbobs(sid, size, clip=clip, type=ty)
                    except l.exc.LengthError:
                        r = None
                    env.check('error iff it does not fit',
                              (r is None) == (bb is None))
                    if r is None or bb is None:
                        continue
                    _stamp_of(env, r, ww, bb, xy0, bands, ty, wcss)
                    _obs_of(env, o, ww, bb, xy0, wcss, psfs, src, bands, ty)
                    for e in r.singles:
                        e.image.array[:, :] = -1.0
                # without a size: the footprint
                g = truth[sid][1]
                fb = l.geom.Box2I(
                    l.geom.Point2I(g.origin[1], g.origin[0]),
                    l.geom.Extent2I(g.shape[1], g.shape[0]))
                r = sub.get_stamp(sid)
                _stamp_of(env, r, w, fb, xy0, bands, 'footprint', wcss)
                if fail:
                    raise KeyError('x')
        except KeyError:
            err = True
        env.check('errors are passed on', err == fail)
        state('subtracted again')
    # the models themselves
    r = sub.get_full_model()
    env.check('bands of the model', tuple(r.bands) == tuple(bands))
    for k, e in enumerate(r.singles):
        t = np.zeros(tuple(dims))
        for sid in kids:
            t = t + truth[sid][0][k]
        env.check_eq('full model', e.image.array, t)
        env.check('model in place', e.getBBox() == mb.getBBox()
                  and e.getWcs() is wcss[k])
    state('still subtracted')
    for sid in kids:
        for r in (sub.get_model(sid), sub.get_stamp(sid, type='model')):
            env.check('bands of the model', tuple(r.bands) == tuple(bands))
            for k, e in enumerate(r.singles):
                t = truth[sid][0][k].copy()
                b = e.getBBox()
                sl = _sl(b, xy0)
                env.check_eq('model', e.image.array, t[sl])
                t[sl] = 0.0
                env.check_eq('nothing outside', t, t * 0)
    for e, b in zip(mb.singles, before):
        for n in ('image', 'variance', 'mask'):
            env.check_eq('data unchanged', getattr(e, n).array, b[n])
