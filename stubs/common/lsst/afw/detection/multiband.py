from . import HeavyFootprintF


class MultibandFootprint:
    def __init__(self, bands, singles):
        self.bands = tuple(bands)
        self.singles = list(singles)

    @staticmethod
    def fromImages(bands, image, footprint=None):
        bb = image.getBBox()
        out = []
        for i, b in enumerate(bands):
            vals = [image.array[i][y - bb.getBeginY(), x - bb.getBeginX()]
                    for x, y in footprint.spans.pix]
            out.append(HeavyFootprintF(footprint, vals))
        return MultibandFootprint(bands, out)

    def __getitem__(self, b):
        return self.singles[self.bands.index(b)]

    def getBBox(self):
        return self.singles[0].getBBox()
