import numpy as np

from lsst.geom import Point2D, SpherePoint, degrees


class _Lin:
    def __init__(self, m):
        self.m = m

    def getLinear(self):
        return self

    def getMatrix(self):
        return self.m


class SkyWcs:
    """stand-in: ra = ra0 + 2 dx + dy, dec = dec0 + dx + dy in pixels relative
    to the reference pixel, and a local matrix, in the unit asked for, that
    varies over the image"""

    def __init__(self, x0, y0, ra0, dec0, matrix):
        self.x0, self.y0, self.ra0, self.dec0 = x0, y0, ra0, dec0
        self.matrix = matrix
        self.asked = []

    def pixelToSky(self, p):
        dx, dy = p.x - self.x0, p.y - self.y0
        return SpherePoint(self.ra0 + 2 * dx + dy, self.dec0 + dx + dy,
                           degrees)

    def skyToPixel(self, s):
        dr, dd = s.ra - self.ra0, s.dec - self.dec0
        return Point2D(self.x0 + dr - dd, self.y0 + 2 * dd - dr)

    def skyToPixelArray(self, ra, dec, degrees=False):
        assert degrees
        dr, dd = ra - self.ra0, dec - self.dec0
        return self.x0 + dr - dd, self.y0 + 2 * dd - dr

    def pixelToSkyArray(self, x, y, degrees=False):
        assert degrees
        dx, dy = x - self.x0, y - self.y0
        return self.ra0 + 2 * dx + dy, self.dec0 + dx + dy

    def linearizePixelToSky(self, p, unit):
        f = {'arcseconds': 1.0, 'degrees': 1 / 4.0, 'radians': 1 / 8.0}[unit]
        m = np.zeros((2, 2))
        for i in range(2):
            for j in range(2):
                m[i, j] = f * (self.matrix[i][j] + p.x * (1 + i + 2 * j) / 8
                               + p.y * (5 + 2 * i - j) / 16)
        return _Lin(m)

    def getPixelScale(self, *a):
        raise NotImplementedError


class SpanSet:
    """pixels, as a set of (x, y)"""
    def __init__(self, pix):
        self.pix = list(pix)

    @staticmethod
    def fromMask(mask):
        a = mask.array
        x0, y0 = mask.getXY0()
        return SpanSet([(x0 + j, y0 + i) for i in range(a.shape[0])
                        for j in range(a.shape[1]) if a[i, j] != 0])

    @staticmethod
    def fromBox(b):
        return SpanSet([(x, y) for y in range(b.getBeginY(), b.getEndY())
                        for x in range(b.getBeginX(), b.getEndX())])
