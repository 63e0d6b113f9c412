from .fitting import FitterBase


class GaussMom(FitterBase):
    kind = 'wmom'

    def __init__(self, fwhm=None, *args, **kw):
        super().__init__(fwhm, *args, **kw)
        self.fwhm = fwhm
