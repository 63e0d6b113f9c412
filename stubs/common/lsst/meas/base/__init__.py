from lsst.pex.config import Config, ConfigField, Field, ListField
from lsst.pipe.base import Task
from lsst import hooks


class _Plugin(Config):
    binmax = Field[int](doc='', default=16)


class _Plugins:
    def __init__(self):
        self.names = ['base_SdssCentroid', 'base_SdssShape', 'base_PsfFlux']
        self.plugins = {}

    def __getitem__(self, n):
        return self.plugins.setdefault(n, _Plugin())


class SlotsConfig(Config):
    apFlux = Field[str](doc='', default='base_CircularApertureFlux_12_0',
                        optional=True)
    gaussianFlux = Field[str](doc='', default='base_GaussianFlux',
                              optional=True)
    calibFlux = Field[str](doc='', default='x', optional=True)
    modelFlux = Field[str](doc='', default='base_GaussianFlux', optional=True)
    psfFlux = Field[str](doc='', default='base_PsfFlux', optional=True)
    shape = Field[str](doc='', default='base_SdssShape', optional=True)
    centroid = Field[str](doc='', default='base_SdssCentroid', optional=True)


class NoiseReplacerConfig(Config):
    noiseSource = Field[str](doc='', default='measure')
    noiseOffset = Field[float](doc='', default=0.0)
    noiseSeedMultiplier = Field[int](doc='', default=1)


class SingleFrameMeasurementConfig(Config):
    slots = ConfigField[SlotsConfig](doc='')
    noiseReplacer = ConfigField[NoiseReplacerConfig](doc='')

    @property
    def plugins(self):
        if '_plug' not in self.__dict__:
            self.__dict__['_plug'] = _Plugins()
        return self.__dict__['_plug']


class SingleFrameMeasurementTask(Task):
    ConfigClass = SingleFrameMeasurementConfig
    _DefaultName = 'measurement'

    def __init__(self, schema=None, **kw):
        super().__init__(**kw)
        self.schema = schema

    def callMeasure(self, source, exposure, *a, **k):
        return hooks['measure'](self, source, exposure)


class NoiseReplacer:
    """replaces the pixels of footprints by noise, and puts sources back one
    at a time"""

    def __init__(self, config, exposure, footprints, noiseImage=None,
                 exposureId=None, log=None):
        from lsst.afw.detection import makeHeavyFootprint
        self.config, self.exposure = config, exposure
        self.footprints, self.noiseImage = footprints, noiseImage
        self.ended = 0
        self.heavies, self.noise = {}, {}
        for k, (parent, fp) in footprints.items():
            if fp.spans is None:
                continue
            self.heavies[k] = makeHeavyFootprint(fp, exposure.maskedImage)
            self.noise[k] = makeHeavyFootprint(fp, noiseImage)
        for k in self.heavies:
            self.noise[k].insert(exposure.image)
        if 'noise_replacer' in hooks:
            hooks['noise_replacer'](self)

    def insertSource(self, id):
        self.heavies[id].insert(self.exposure.image)

    def removeSource(self, id):
        self.noise[id].insert(self.exposure.image)

    def end(self):
        self.ended += 1
        for k in self.heavies:
            self.heavies[k].insert(self.exposure.image)
