__all__ = ['GMixFatalError', 'GMixRangeError', 'BootPSFFailure',
           'PSFFluxFailure', 'BootGalFailure', 'MetacalError']


class NGmixBaseException(Exception):
    def __init__(self, value=''):
        super().__init__(value)
        self.value = value


class GMixRangeError(NGmixBaseException):
    pass


class GMixFatalError(NGmixBaseException):
    pass


class BootPSFFailure(NGmixBaseException):
    pass


class PSFFluxFailure(NGmixBaseException):
    pass


class BootGalFailure(NGmixBaseException):
    pass


class MetacalError(NGmixBaseException):
    pass
