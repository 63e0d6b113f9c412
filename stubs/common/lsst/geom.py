import numpy as np

arcseconds = 'arcseconds'
degrees = 'degrees'
radians = 'radians'


class _XY:
    def __init__(self, x=None, y=None):
        if y is None and x is not None:
            x, y = x.x, x.y
        elif x is None:
            x = y = 0
        self.x, self.y = self._conv(x), self._conv(y)

    def _conv(self, v):
        return v

    def getX(self):
        return self.x

    def getY(self):
        return self.y

    def __getitem__(self, i):
        return (self.x, self.y)[i]

    def __iter__(self):
        return iter((self.x, self.y))

    def __repr__(self):
        return '%s(%r, %r)' % (type(self).__name__, self.x, self.y)


class _I:
    def _conv(self, v):
        if isinstance(v, float):
            return int(np.floor(v + 0.5))
        return int(v)


class Extent2D(_XY):
    pass


class Extent2I(_I, _XY):
    def getArea(self):
        return self.x * self.y


class _Pt(_XY):
    def __sub__(self, o):
        if isinstance(o, _Pt):
            return Extent2D(self.x - o.x, self.y - o.y)
        return Point2D(self.x - o.x, self.y - o.y)

    def __add__(self, o):
        return Point2D(self.x + o.x, self.y + o.y)

    def __eq__(self, o):
        return isinstance(o, _Pt) and self.x == o.x and self.y == o.y

    __hash__ = None


class Point2D(_Pt):
    pass


class Point2I(_I, _Pt):
    pass


class Box2I:
    def __init__(self, a=None, b=None):
        if a is None:
            self.x0 = self.y0 = self.nx = self.ny = 0
        elif b is None:
            self.x0, self.y0, self.nx, self.ny = a.x0, a.y0, a.nx, a.ny
        elif isinstance(b, Extent2I):
            self.x0, self.y0, self.nx, self.ny = a.x, a.y, b.x, b.y
        else:
            self.x0, self.y0 = a.x, a.y
            self.nx, self.ny = b.x - a.x + 1, b.y - a.y + 1

    def getBeginX(self):
        return self.x0

    def getBeginY(self):
        return self.y0

    def getEndX(self):
        return self.x0 + self.nx

    def getEndY(self):
        return self.y0 + self.ny

    getMinX, getMinY = getBeginX, getBeginY

    def getMaxX(self):
        return self.x0 + self.nx - 1

    def getMaxY(self):
        return self.y0 + self.ny - 1

    beginX = property(getBeginX)
    beginY = property(getBeginY)
    endX = property(getEndX)
    endY = property(getEndY)
    minX = property(getBeginX)
    minY = property(getBeginY)
    maxX = property(getMaxX)
    maxY = property(getMaxY)

    def getMin(self):
        return Point2I(self.x0, self.y0)

    getBegin = getMin

    def getMax(self):
        return Point2I(self.getMaxX(), self.getMaxY())

    def getWidth(self):
        return self.nx

    def getHeight(self):
        return self.ny

    width = property(getWidth)
    height = property(getHeight)

    def getDimensions(self):
        return Extent2I(self.nx, self.ny)

    def getArea(self):
        return self.nx * self.ny

    def isEmpty(self):
        return self.nx <= 0 or self.ny <= 0

    def getCenter(self):
        return Point2D(self.x0 + (self.nx - 1) / 2,
                       self.y0 + (self.ny - 1) / 2)

    def grow(self, n):
        self.x0 = self.x0 - n
        self.y0 = self.y0 - n
        self.nx = self.nx + 2 * n
        self.ny = self.ny + 2 * n

    def clip(self, o):
        x0, y0 = max(self.x0, o.x0), max(self.y0, o.y0)
        x1 = min(self.getEndX(), o.getEndX())
        y1 = min(self.getEndY(), o.getEndY())
        if x1 <= x0 or y1 <= y0:
            self.x0 = self.y0 = self.nx = self.ny = 0
        else:
            self.x0, self.y0, self.nx, self.ny = x0, y0, x1 - x0, y1 - y0

    def contains(self, o):
        if isinstance(o, Box2I):
            return (o.nx <= 0 or o.ny <= 0) or (
                o.x0 >= self.x0 and o.y0 >= self.y0 and
                o.getEndX() <= self.getEndX() and
                o.getEndY() <= self.getEndY())
        return (o.x >= self.x0 and o.y >= self.y0 and
                o.x < self.getEndX() and o.y < self.getEndY())

    def __eq__(self, o):
        return (self.x0 == o.x0 and self.y0 == o.y0 and self.nx == o.nx
                and self.ny == o.ny)

    __hash__ = None

    def __repr__(self):
        return 'Box2I(%r, %r, %r, %r)' % (self.x0, self.y0, self.nx, self.ny)


class Angle:
    def __init__(self, deg):
        self.deg = deg

    def asDegrees(self):
        return self.deg

    def asRadians(self):
        return self.deg * np.pi / 180

    def asArcseconds(self):
        return self.deg * 3600


class SpherePoint:
    """angles in degrees"""
    def __init__(self, ra, dec, units=degrees):
        assert units == degrees
        self.ra, self.dec = ra, dec

    def getRa(self):
        return Angle(self.ra)

    def getDec(self):
        return Angle(self.dec)

    getLongitude, getLatitude = getRa, getDec
