from .fitting import FitterBase


class PrePSFMom(FitterBase):
    kind = 'prepsf'

    def __init__(self, fwhm=None, *args, **kw):
        super().__init__(fwhm, *args, **kw)
        self.fwhm = fwhm


class KSigmaMom(PrePSFMom):
    kind = 'ksigma'


class PGaussMom(PrePSFMom):
    kind = 'pgauss'


PrePSFGaussMom = PGaussMom
