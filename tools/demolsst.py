"""small stand-ins for the LSST pipelines, for demonstrations"""
import mdload  # noqa
import importlib
import numpy as np
import ngmix
import lsst
from lsst import geom
import lsst.afw.image as afi
import lsst.afw.geom as afg
import lsst.afw.math as afm
import lsst.afw.detection as afd
import lsst.afw.table as aft
import lsst.meas.algorithms as alg

hooks = lsst.hooks


class Res(object):
    pass


def wcs(x0=3, m=((.25, .5), (-1.5, .75))):
    return afg.SkyWcs(np.float64(x0), np.float64(5), np.float64(10),
                      np.float64(-3), [[np.float64(v) for v in r] for r in m])


class PosPsf(object):
    """the central value depends on the position"""

    def __init__(self, im):
        self.im = np.array(im, dtype='f8')

    def computeKernelImage(self, pos=None):
        im = afi.ImageD(self.im.copy())
        n = im.array.shape
        im.array[n[0] // 2, n[1] // 2] += pos.x / 16 + pos.y / 64
        return im

    def clone(self):
        return PosPsf(self.im)


def psf(*v):
    im = np.zeros((3, 3)) + 1
    im[1, 1] = 10
    for k, x in enumerate(v):
        im[0, k] += x
    return alg.KernelPsf(afm.FixedKernel(afi.ImageD(im)))


def exposure(dims, band='r', xy0=(0, 0), image=0., var=4., mask=0, w=None,
             p=None, cls='ExposureF'):
    e = getattr(afi, cls)(geom.Box2I(geom.Point2I(*xy0), geom.Extent2I(
        dims[1], dims[0])))
    e.image.array[:, :] = image
    e.variance.array[:, :] = var
    e.mask.array[:, :] = mask
    e.setWcs(w or wcs())
    e.setPsf(p or psf())
    e.setFilter(afi.FilterLabel(band))
    return e


def mbexp(*exps):
    mb = afi.MultibandExposure.fromExposures(
        [e.getFilter().bandLabel for e in exps], list(exps))
    for e, s in zip(exps, mb.singles):
        s.setFilter(e.getFilter())
        s.setWcs(e.getWcs())
        if s.getPsf() is None:
            s.setPsf(e.getPsf())
    return mb


def source(sid, peak, parent=0, nchild=0, centroid=None, coord=None,
           pix=None):
    fp = afd.Footprint(None if pix is None else afg.SpanSet(pix), None)
    fp.addPeak(peak[0], peak[1], 1.0)
    c = centroid or peak
    return aft.SourceRecord(
        sid, parent, fp, geom.Point2D(np.float64(c[0]), np.float64(c[1])),
        geom.SpherePoint(*(coord or (10., -3.))), nchild)


def moms(v):
    s = np.array([0., 0., .25, .5, 4., v])
    return {'flags': 0, 'flagstr': '', 'sums': s, 'sums_cov': np.eye(6),
            'flux': v, 'flux_err': 2., 'flux_flags': 0, 'pars': s, 'T': .5}


def gauss(mbobs):
    n = len(mbobs)
    f = np.array([o[0].image.max() for o in mbobs])
    r = {'flags': 0, 's2n': 5., 'T_err': .5, 'T': 1., 'g': np.zeros(2),
         'g_cov': np.eye(2), 'flux': f, 'flux_err': f + 1}
    if n == 1:
        r['flux'], r['flux_err'] = r['flux'][0], r['flux_err'][0]
    return r


def fitters():
    def boot(mbobs, runner, psf_runner=None):
        for ol in mbobs:
            for o in ol:
                o.psf.meta['result'] = {'flags': 0, 'T': 1., 'e': np.zeros(2),
                                        'g': np.zeros(2)}
        return gauss(mbobs)
    ngmix.hooks.update(
        bootstrap=boot, flags_str=lambda v: 'x',
        psf_runner_go=lambda r, o: {'flags': 0, 'T': 1., 'g': np.zeros(2),
                                    'e': np.zeros(2)},
        fitter_go=lambda f, o, *a, **k: moms(float(o.image.max())))


def md(name):
    return importlib.import_module('metadetect.lsst.' + name)
