"""the scattered-data interpolants return arbitrary finite values"""
import numpy as np


class _Interp:
    calls = []

    def __init__(self, points, values, fill_value=np.nan, **kw):
        self.points = points
        self.values = values
        self.fill_value = fill_value
        hook = _Interp.hook
        if hook is not None:
            hook('init', self, None, None)

    hook = None

    def __call__(self, xi):
        n = xi.shape[0]
        out = np.zeros(n)
        for i in range(n):
            out[i] = np.random.RandomState(0)._draw('interp', None)
        if _Interp.hook is not None:
            _Interp.hook('call', self, xi, out)
        return out


class CloughTocher2DInterpolator(_Interp):
    pass


class LinearNDInterpolator(_Interp):
    pass


class NearestNDInterpolator(_Interp):
    pass
