import numpy as np

from lsst.geom import Box2I, Point2I, Extent2I
from lsst.pex.exceptions import LengthError


class _Img:
    DT = 'f4'

    def __init__(self, a=None, b=None, deep=False, array=None, xy0=None,
                 dtype=None, bbox=None):
        if xy0 is None:
            xy0 = Point2I(0, 0)
        if isinstance(a, _Img):
            arr = a.array
            xy0 = a.getXY0()
            if deep or (arr.dtype != np.dtype(self.DT)):
                arr = arr.astype(self.DT)
        elif isinstance(a, Box2I):
            arr = np.zeros((a.getHeight(), a.getWidth()), dtype=self.DT)
            xy0 = a.getMin()
        elif isinstance(a, Extent2I):
            arr = np.zeros((a.y, a.x), dtype=self.DT)
        elif isinstance(a, int):
            arr = np.zeros((b, a), dtype=self.DT)
        else:
            arr = a if array is None else array
            arr = np.array(arr, dtype=dtype or self.DT)
            if bbox is not None:
                xy0 = bbox.getMin()
        self._setup(arr, xy0)

    def _setup(self, arr, xy0):
        self._array = arr
        self._xy0 = Point2I(xy0.x, xy0.y)

    @classmethod
    def _view(cls, arr, xy0):
        o = cls.__new__(cls)
        o._setup(arr, xy0)
        return o

    @property
    def array(self):
        return self._array

    @array.setter
    def array(self, v):
        self._array[...] = v

    def getArray(self):
        return self._array

    def getXY0(self):
        return Point2I(self._xy0.x, self._xy0.y)

    def getBBox(self):
        n = self._array.shape
        return Box2I(self.getXY0(), Extent2I(n[1], n[0]))

    def getDimensions(self):
        n = self._array.shape
        return Extent2I(n[1], n[0])

    def clone(self):
        return self._view(self._array.copy(), self._xy0)

    def _slc(self, bbox):
        if not self.getBBox().contains(bbox):
            raise LengthError('box %r does not fit in %r'
                              % (bbox, self.getBBox()))
        y, x = bbox.getBeginY() - self._xy0.y, bbox.getBeginX() - self._xy0.x
        return (slice(y, y + bbox.getHeight()), slice(x, x + bbox.getWidth()))

    def __getitem__(self, k):
        if isinstance(k, Box2I):
            return self._view(self._array[self._slc(k)], k.getMin())
        # a point
        if not self.getBBox().contains(k):
            raise LengthError('point %r is not in %r' % (k, self.getBBox()))
        return self._array[int(k.y - self._xy0.y), int(k.x - self._xy0.x)]


class ImageF(_Img):
    DT = 'f4'


class ImageD(_Img):
    DT = 'f8'


class ImageI(_Img):
    DT = 'i4'


class Image(_Img):
    DT = 'f4'


DEFAULT_PLANES = ['BAD', 'SAT', 'INTRP', 'CR', 'EDGE', 'DETECTED',
                  'DETECTED_NEGATIVE', 'SUSPECT', 'NO_DATA']


class Mask(_Img):
    DT = 'i4'
    planes = {n: i for i, n in enumerate(DEFAULT_PLANES)}

    @classmethod
    def addMaskPlane(cls, name):
        if name not in Mask.planes:
            Mask.planes[name] = len(Mask.planes)
        return Mask.planes[name]

    @classmethod
    def getPlaneBitMask(cls, names):
        if isinstance(names, str):
            names = [names]
        v = 0
        for n in names:
            if n not in Mask.planes:
                from lsst.pex.exceptions import InvalidParameterError
                raise InvalidParameterError('no mask plane %s' % n)
            v |= 1 << Mask.planes[n]
        return v

    @classmethod
    def getMaskPlane(cls, n):
        return Mask.planes[n]

    @classmethod
    def getMaskPlaneDict(cls):
        return dict(Mask.planes)


MaskX = Mask


class MaskedImage:
    IMG = ImageF

    def __init__(self, image, mask=None, variance=None, dtype=None):
        self.image = image
        self.mask = Mask(image.getBBox()) if mask is None else mask
        self.variance = self.IMG(image.getBBox()) if variance is None \
            else variance

    def getImage(self):
        return self.image

    def getBBox(self):
        return self.image.getBBox()


class MaskedImageF(MaskedImage):
    IMG = ImageF


class MaskedImageD(MaskedImage):
    IMG = ImageD


class FilterLabel:
    def __init__(self, band=None, physical=None):
        self.bandLabel = band
        self.physicalLabel = physical


class Exposure:
    IMG = ImageF

    def __init__(self, a, b=None, deep=False):
        I = self.IMG
        self._wcs = self._psf = self._filter = self._detector = None
        self._meta = {}
        if isinstance(a, Exposure):
            if isinstance(b, bool):
                deep, b = b, None
            conv = I is not a.IMG
            if conv or deep:
                self.image, self.variance = I(a.image, deep=True), I(
                    a.variance, deep=True)
                self.mask = Mask(a.mask, deep=True)
            else:
                self.image, self.variance, self.mask = (
                    a.image, a.variance, a.mask)
            self._info(a)
        elif isinstance(a, MaskedImage):
            self.image, self.mask, self.variance = (
                a.image, a.mask, a.variance)
        else:
            bbox = a if isinstance(a, Box2I) else Box2I(
                Point2I(0, 0), Extent2I(a, b))
            self.image, self.variance = I(bbox), I(bbox)
            self.mask = Mask(bbox)

    def _info(self, a):
        self._wcs, self._psf, self._filter = a._wcs, a._psf, a._filter
        self._detector = a._detector
        self._meta = a._meta

    @property
    def maskedImage(self):
        return MaskedImage(self.image, self.mask, self.variance)

    def getMaskedImage(self):
        return self.maskedImage

    def getWcs(self):
        return self._wcs

    def setWcs(self, w):
        self._wcs = w

    def getPsf(self):
        return self._psf

    def setPsf(self, p):
        self._psf = p

    def getFilter(self):
        return self._filter

    def setFilter(self, f):
        self._filter = f

    def getDetector(self):
        return self._detector

    def setDetector(self, d):
        self._detector = d

    wcs = property(getWcs)
    psf = property(getPsf)
    filter = property(getFilter)

    def getMetadata(self):
        return self._meta

    def getBBox(self):
        return self.image.getBBox()

    def getXY0(self):
        return self.image.getXY0()

    def getDimensions(self):
        return self.image.getDimensions()

    def __getitem__(self, k):
        o = type(self).__new__(type(self))
        o._info(self)
        o.image, o.mask, o.variance = (self.image[k], self.mask[k],
                                       self.variance[k])
        return o

    def clone(self):
        return type(self)(self, deep=True)


class ExposureF(Exposure):
    IMG = ImageF


class ExposureD(Exposure):
    IMG = ImageD


class ExposureI(Exposure):
    IMG = ImageI


class _Stack:
    """a plane of all bands"""
    def __init__(self, array):
        self.array = array


class MultibandImage:
    def __init__(self, bands, array, bbox):
        self.bands = tuple(bands)
        self.array = array
        self._bbox = bbox

    def getBBox(self):
        return self._bbox


class MultibandExposure:
    """copies of the pixels of single band exposures: the single band
    exposures are views"""

    def __init__(self, bands, image, mask, variance, xy0, cls, psfs=None):
        self.bands = tuple(bands)
        self.image, self.mask, self.variance = (
            _Stack(image), _Stack(mask), _Stack(variance))
        self._xy0, self._cls = xy0, cls
        self.singles = []
        for i, b in enumerate(self.bands):
            e = cls.__new__(cls)
            e._wcs = e._psf = e._filter = e._detector = None
            e._meta = {}
            e.image = cls.IMG._view(image[i], xy0)
            e.variance = cls.IMG._view(variance[i], xy0)
            e.mask = Mask._view(mask[i], xy0)
            if psfs is not None:
                e._psf = psfs[i]
            self.singles.append(e)

    @staticmethod
    def fromExposures(bands, singles):
        cls = type(singles[0])
        bb = singles[0].getBBox()
        assert len(bands) == len(singles)
        assert all(s.getBBox() == bb for s in singles)
        return MultibandExposure(
            bands, *[np.array([getattr(s, n).array for s in singles])
                     for n in ('image', 'mask', 'variance')],
            xy0=bb.getMin(), cls=cls, psfs=[s.getPsf() for s in singles])

    def clone(self, deep=True):
        return MultibandExposure(
            self.bands, self.image.array.copy(), self.mask.array.copy(),
            self.variance.array.copy(), self._xy0, self._cls)

    def getBBox(self):
        return self.singles[0].getBBox()

    def getXY0(self):
        return self.singles[0].getXY0()

    def __len__(self):
        return len(self.bands)

    def __iter__(self):
        return iter(self.singles)

    def __getitem__(self, b):
        if isinstance(b, int):
            return self.singles[b]
        if b not in self.bands:
            raise KeyError(b)
        return self.singles[self.bands.index(b)]
