"""shared by the harnesses of metadetect.lsst"""
from .common import pixels  # noqa


class L:
    """the stand-ins for the pipelines, in their initial state"""

    def __init__(self, env):
        self.env = env
        self.np = env.np
        self.geom = env.mod('lsst.geom')
        self.image = env.mod('lsst.afw.image')
        self.wcs = env.mod('lsst.afw.geom')
        self.det = env.mod('lsst.afw.detection')
        self.table = env.mod('lsst.afw.table')
        self.alg = env.mod('lsst.meas.algorithms')
        self.exc = env.mod('lsst.pex.exceptions')
        self.hooks = env.mod('lsst').hooks
        self.hooks.clear()
        M = self.image.Mask
        M.planes.clear()
        for i, n in enumerate(self.image.DEFAULT_PLANES):
            M.planes[n] = i

    def plane(self, name):
        return self.image.Mask.getPlaneBitMask(name)

    def bbox(self, dims, xy0=(0, 0)):
        g = self.geom
        return g.Box2I(g.Point2I(xy0[0], xy0[1]),
                       g.Extent2I(dims[1], dims[0]))

    def affine(self, name=None, x0=3, y0=5, ra0=10, dec0=-3):
        """a wcs whose local matrix depends on the position"""
        env = self.env
        f = self.np.float64
        m = [[f(.25), f(.5)], [f(-1.5), f(.75)]]
        if name is not None:
            m = [[env.real('%s_m%d%d' % (name, i, j), -2, 2)
                  for j in range(2)] for i in range(2)]
        return self.wcs.SkyWcs(f(x0), f(y0), f(ra0), f(dec0), m)

    def kernel(self, image):
        return env_kernel(self, image)

    def exposure(self, dims, xy0=(0, 0), image=None, var=None, mask=None,
                 wcs=None, psf=None, band=None, cls='ExposureF'):
        e = getattr(self.image, cls)(self.bbox(dims, xy0))
        if image is not None:
            e.image.array[:, :] = image
        if var is not None:
            e.variance.array[:, :] = var
        if mask is not None:
            e.mask.array[:, :] = mask
        e.setWcs(wcs)
        e.setPsf(psf)
        if band is not None:
            e.setFilter(self.image.FilterLabel(band))
        return e

    def anyexp(self, name, dims, xy0=(0, 0), planes='ivm', vlo=0, wcs=None,
               psf=None, band=None, cls='ExposureF', code=1):
        """an exposure with arbitrary pixels"""
        env, np = self.env, self.np
        im = env.arr_real(name + '_im', dims, -1000, 1000) if 'i' in planes \
            else np.zeros(dims) + code
        va = env.arr_real(name + '_va', dims, vlo, 1000) if 'v' in planes \
            else np.ones(dims) * 4.0
        ma = env.arr_bv(name + '_ma', dims) if 'm' in planes else \
            np.zeros(dims, dtype='i4')
        return self.exposure(dims, xy0, im, va, ma, wcs, psf, band, cls)

    def mbexp(self, exps):
        return self.image.MultibandExposure.fromExposures(
            [e.getFilter().bandLabel for e in exps], exps)

    def full(self, exps):
        """with wcs and filter, as metadetect builds it"""
        mb = self.mbexp(exps)
        for e, s in zip(exps, mb.singles):
            s.setFilter(e.getFilter())
            s.setWcs(e.getWcs())
        return mb

    def psf(self, image):
        np = self.np
        return self.alg.KernelPsf(env_kernel(self, image))

    def posPsf(self, image, log=None):
        return PosPsf(self, image, log)

    def source(self, sid, peak, parent=0, nchild=0, centroid=None, coord=None,
               pix=None, bbox=None):
        """peak: (x, y)"""
        spans = None if pix is None else self.wcs.SpanSet(pix)
        fp = self.det.Footprint(spans, bbox)
        fp.addPeak(peak[0], peak[1], 1.0)
        g = self.geom
        if centroid is not None:
            centroid = g.Point2D(centroid[0], centroid[1])
        if coord is not None:
            coord = g.SpherePoint(coord[0], coord[1])
        return self.table.SourceRecord(sid, parent, fp, centroid, coord,
                                       nchild)


def env_kernel(lsst, image):
    m = lsst.env.mod('lsst.afw.math')
    return m.FixedKernel(lsst.image.ImageD(lsst.np.asarray(image)))


class PosPsf:
    """a psf that varies over the image: the central value at (x, y) is
    larger by x/16 + y/64"""

    def __init__(self, lsst, image, log=None):
        self.l, self.image, self.log = lsst, image, log

    def computeKernelImage(self, pos=None):
        if self.log is not None:
            self.log.append((pos.x, pos.y))
        im = self.l.image.ImageD(self.l.np.asarray(self.image))
        n = im.array.shape
        im.array[n[0] // 2, n[1] // 2] += pos.x / 16 + pos.y / 64
        return im

    def at(self, x, y):
        return self.computeKernelImage(self.l.geom.Point2D(x, y)).array

    def clone(self):
        return PosPsf(self.l, self.image, self.log)


def snap(e):
    return {n: getattr(e, n).array.copy()
            for n in ('image', 'variance', 'mask')}
