from .fitting import FitterBase


class AdmomFitter(FitterBase):
    kind = 'am'
