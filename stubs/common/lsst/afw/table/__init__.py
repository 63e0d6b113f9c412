class Schema:
    pass


class SourceTable:
    def __init__(self, schema):
        self.schema = schema

    @staticmethod
    def makeMinimalSchema():
        return Schema()

    @staticmethod
    def make(schema):
        return SourceTable(schema)


class SourceRecord:
    def __init__(self, id, parent=0, footprint=None, centroid=None,
                 coord=None, nchild=0):
        self.id, self.parent, self.footprint = id, parent, footprint
        self.centroid, self.coord = centroid, coord
        self.fields = {'deblend_nChild': nchild}

    def getId(self):
        return self.id

    def getParent(self):
        return self.parent

    def getFootprint(self):
        return self.footprint

    def setFootprint(self, f):
        self.footprint = f

    def getCentroid(self):
        return self.centroid

    def getCoord(self):
        return self.coord

    def __getitem__(self, k):
        return self.fields[k]

    get = __getitem__

    def __setitem__(self, k, v):
        self.fields[k] = v


class SourceCatalog:
    def __init__(self, records=()):
        self.records = list(records)

    def __len__(self):
        return len(self.records)

    def __iter__(self):
        return iter(self.records)

    def __getitem__(self, i):
        return self.records[i]

    def find(self, sid):
        for r in self.records:
            if r.id == sid:
                return r
        return None

    def append(self, r):
        self.records.append(r)
