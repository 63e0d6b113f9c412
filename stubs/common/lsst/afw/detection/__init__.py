import numpy as np

from lsst.geom import Point2I, Point2D, Box2I


class PeakRecord:
    def __init__(self, fx, fy, value=0.0, ix=None, iy=None):
        self.fx, self.fy, self.value = fx, fy, value
        p = Point2I(Point2D(fx, fy))
        self.ix = p.x if ix is None else ix
        self.iy = p.y if iy is None else iy

    def getIx(self):
        return self.ix

    def getIy(self):
        return self.iy

    def getI(self):
        return Point2I(self.ix, self.iy)

    def getFx(self):
        return self.fx

    def getFy(self):
        return self.fy

    def getF(self):
        return Point2D(self.fx, self.fy)

    getCentroid = getF

    def getPeakValue(self):
        return self.value


class Footprint:
    def __init__(self, spans=None, bbox=None):
        self.spans = spans
        self.peaks = []
        self._bbox = bbox

    def addPeak(self, x, y, v):
        self.peaks.append(PeakRecord(x, y, v))

    def getPeaks(self):
        return self.peaks

    def getSpans(self):
        return self.spans

    def getBBox(self):
        if self._bbox is not None:
            return Box2I(self._bbox)
        if not self.spans.pix:
            return Box2I()
        xs = [p[0] for p in self.spans.pix]
        ys = [p[1] for p in self.spans.pix]
        return Box2I(Point2I(min(xs), min(ys)), Point2I(max(xs), max(ys)))


class HeavyFootprintF(Footprint):
    """a footprint with the values of its pixels"""

    def __init__(self, foot, values=None):
        super().__init__(foot.spans, foot._bbox)
        self.peaks = foot.peaks
        self.values = values

    def _each(self, image):
        bb = image.getBBox()
        for (x, y), v in zip(self.spans.pix, self.values):
            if bb.getBeginX() <= x < bb.getEndX() and (
                    bb.getBeginY() <= y < bb.getEndY()):
                yield y - bb.getBeginY(), x - bb.getBeginX(), v

    def addTo(self, image):
        for i, j, v in self._each(image):
            image.array[i, j] += v

    def subtractFrom(self, image):
        for i, j, v in self._each(image):
            image.array[i, j] -= v

    def insert(self, image):
        for i, j, v in self._each(image):
            image.array[i, j] = v

    def extractImage(self, fill=0):
        from lsst.afw.image import ImageF
        im = ImageF(self.getBBox())
        im.array[...] = fill
        self.insert(im)
        return im


def makeHeavyFootprint(foot, mi):
    bb = mi.getBBox()
    vals = [mi.image.array[y - bb.getBeginY(), x - bb.getBeginX()]
            for x, y in foot.spans.pix]
    return HeavyFootprintF(foot, vals)
