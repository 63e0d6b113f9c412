from lsst.pex.config import Config, Field
from lsst.pipe.base import Task
from lsst import hooks


class SourceDeblendConfig(Config):
    maxFootprintArea = Field[int](doc='', default=1000000)


class SourceDeblendTask(Task):
    ConfigClass = SourceDeblendConfig
    _DefaultName = 'sourceDeblend'

    def __init__(self, schema=None, **kw):
        super().__init__(**kw)
        self.schema = schema

    def run(self, exposure, sources):
        return hooks['deblend'](self, exposure, sources)
