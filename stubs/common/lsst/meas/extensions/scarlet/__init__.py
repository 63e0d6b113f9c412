from lsst.pex.config import Config, Field
from lsst.pipe.base import Task
from lsst import hooks


class ScarletDeblendConfig(Config):
    maxFootprintArea = Field[int](doc='', default=100000)
    processSingles = Field[bool](doc='', default=True)


class ScarletDeblendTask(Task):
    ConfigClass = ScarletDeblendConfig
    _DefaultName = 'scarletDeblend'

    def __init__(self, schema=None, **kw):
        super().__init__(**kw)
        self.schema = schema
        self.objectSchema = schema

    def run(self, mExposure, mDeconvolved, mergedSources):
        return hooks['scarlet'](self, mExposure, mDeconvolved, mergedSources)


class DeconvolveExposureTask(Task):
    ConfigClass = Config
    _DefaultName = 'deconvolve'

    def run(self, exposure, catalog=None, band=None):
        return hooks['deconvolve'](self, exposure, catalog, band)
