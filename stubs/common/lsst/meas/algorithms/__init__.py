from lsst.afw.image import ImageD
from lsst.pex.config import Config, Field, ListField
from lsst.pipe.base import Task
from lsst import hooks


class KernelPsf:
    """the same kernel everywhere"""
    def __init__(self, kernel, averagePosition=None):
        self.kernel = kernel

    def computeKernelImage(self, pos=None):
        return ImageD(self.kernel.image, deep=True)

    computeImage = computeKernelImage

    def clone(self):
        return KernelPsf(self.kernel)


class SubtractBackgroundConfig(Config):
    ignoredPixelMask = ListField[str](
        doc='', default=['BAD', 'EDGE', 'DETECTED', 'DETECTED_NEGATIVE',
                         'NO_DATA'])
    binSize = Field[int](doc='', default=128)


class SubtractBackgroundTask(Task):
    ConfigClass = SubtractBackgroundConfig
    _DefaultName = 'subtractBackground'

    def run(self, exposure, *a, **k):
        return hooks['background'](self, exposure)


class SourceDetectionConfig(Config):
    minPixels = Field[int](doc='', default=1)
    isotropicGrow = Field[bool](doc='', default=True)
    combinedGrow = Field[bool](doc='', default=True)
    nSigmaToGrow = Field[float](doc='', default=2.4)
    returnOriginalFootprints = Field[bool](doc='', default=False)
    thresholdValue = Field[float](doc='', default=5.0)
    includeThresholdMultiplier = Field[float](doc='', default=1.0)
    thresholdType = Field[str](doc='', default='pixel_stdev')
    thresholdPolarity = Field[str](doc='', default='positive')
    adjustBackground = Field[float](doc='', default=0.0)
    reEstimateBackground = Field[bool](doc='', default=True)
    doApplyFlatBackgroundRatio = Field[bool](doc='', default=False)
    nPeaksMaxSimple = Field[int](doc='', default=1)
    nSigmaForKernel = Field[float](doc='', default=7.0)
    statsMask = ListField[str](doc='', default=['BAD', 'SAT', 'EDGE',
                                                'NO_DATA'])
    excludeMaskPlanes = ListField[str](doc='', default=[])


class SourceDetectionTask(Task):
    ConfigClass = SourceDetectionConfig
    _DefaultName = 'sourceDetection'

    def __init__(self, schema=None, **kw):
        super().__init__(**kw)
        self.schema = schema

    def run(self, table, exposure, *a, **k):
        return hooks['detection'](self, table, exposure)
