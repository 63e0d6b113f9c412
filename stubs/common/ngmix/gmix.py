import numpy as np


def gmix_weight(obs, cv=0, cu=0, g1=0, g2=0):
    """a positive weight falling with the distance from the center relative to
    the jacobian center: a rational stand-in for the gaussian"""
    ny, nx = obs.image.shape
    out = np.zeros((ny, nx))
    j = obs.jacobian
    for iy in range(ny):
        for ix in range(nx):
            v, u = j.get_vu(iy, ix)
            v, u = v - cv, u - cu
            out[iy, ix] = v * v + u * u
            if g1 != 0 or g2 != 0:
                out[iy, ix] += 2 * g1 * (v * v - u * u) - 4 * g2 * u * v
    return out


class GMix:
    def __init__(self, pars=None):
        self.pars = pars


class GMixModel(GMix):
    def __init__(self, pars, model):
        self.pars = list(pars)
        self.model = model

    def get_T(self):
        return self.pars[4]

    def get_weighted_sums(self, obs, maxrad=None):
        """only the flux-like sum is provided: sums[5] is the weighted sum of
        the image over the pixels with positive weight map within maxrad"""
        ny, nx = obs.image.shape
        cv, cu, g1, g2, T, flux = self.pars
        r2 = gmix_weight(obs, cv, cu, g1, g2)
        wsum = 0.0
        fsum = 0.0
        for iy in range(ny):
            for ix in range(nx):
                w = flux / (1.0 + r2[iy, ix] / T)
                w = np.where(obs.weight[iy, ix] > 0, w, 0.0)[()]
                if maxrad is not None:
                    w = np.where(r2[iy, ix] <= maxrad**2, w, 0.0)[()]
                wsum = wsum + w
                fsum = fsum + w * obs.image[iy, ix]
        return {'sums': np.array([0.0, 0.0, 0.0, 0.0, wsum, fsum]),
                'wsum': wsum, 'npix': ny*nx}

    def make_galsim_object(self):
        from . import hooks
        return hooks['make_galsim_object'](self)
