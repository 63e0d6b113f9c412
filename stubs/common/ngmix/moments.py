import math

import numpy as np

from . import flags as F

MOMENTS_NAME_MAP = {
    'Mv': 0, 'Mu': 1, 'M1': 2, 'M2': 3, 'MT': 4, 'MF': 5,
}


def fwhm_to_sigma(fwhm):
    return fwhm / (2.0 * math.sqrt(2.0 * math.log(2.0)))


def fwhm_to_T(fwhm):
    sigma = fwhm_to_sigma(fwhm)
    return 2 * sigma**2


def T_to_fwhm(T):
    return np.sqrt(T / 2) * (2.0 * math.sqrt(2.0 * math.log(2.0)))


def _w(c, a, b):
    return np.where(c, a, b)[()]


def ratio_var(a, b, va, vb, cov):
    r = a / b
    return (va - 2 * r * cov + r * r * vb) / (b * b)


def make_mom_result(sums, sums_cov, sums_norm=None):
    if len(sums) != 6:
        raise ValueError('bad sums')
    if tuple(sums_cov.shape) != (6, 6):
        raise ValueError('bad sums_cov')
    nan = np.nan
    res = {
        'flags': 0, 'flagstr': '', 'flux': sums[5], 'sums': sums,
        'sums_cov': sums_cov, 'sums_norm': sums_norm if sums_norm is not None
        else nan, 'flux_flags': 0, 'T_flags': 0,
        'flux_flagstr': '', 'T_flagstr': '', 'flux_err': nan, 'T': nan,
        'T_err': nan, 's2n': nan, 'e1': nan, 'e2': nan,
        'e': np.array([nan, nan]), 'e_err': np.array([nan, nan]),
        'e_cov': np.diag(np.array([nan, nan])),
        'sums_err': np.array([nan]*6), 'pars': sums,
    }
    # written without branches to keep the number of paths small
    one = np.float64(1)
    pos = [sums_cov[i, i] > 0 for i in range(6)]
    fpos = sums[5] > 0
    fvar = pos[5]
    tvar = pos[5] & pos[4]
    tgood = tvar & fpos
    egood = fpos & (sums[4] > 0)
    flux = _w(fpos, sums[5], one)
    size = _w(egood, sums[4], one)

    ferr = np.sqrt(_w(fvar, sums_cov[5, 5], one))
    res['flux_err'] = _w(fvar, ferr, nan)
    res['s2n'] = _w(fvar, sums[5] / ferr, nan)
    res['flux_flags'] = _w(fvar, 0, F.NONPOS_VAR)

    res['T'] = _w(tgood, sums[4] / flux, nan)
    res['T_err'] = _w(tgood, np.sqrt(abs(ratio_var(
        sums[4], flux, sums_cov[4, 4], sums_cov[5, 5],
        sums_cov[4, 5]))), nan)
    res['T_flags'] = _w(tvar, _w(fpos, 0, F.NONPOS_FLUX), F.NONPOS_VAR)

    allpos = pos[0] & pos[1] & pos[2] & pos[3] & pos[4] & pos[5]
    res['flags'] = (_w(allpos, 0, F.NONPOS_VAR)
                    | _w(fpos, _w(egood, 0, F.NONPOS_SIZE), F.NONPOS_FLUX)
                    | res['flux_flags'] | res['T_flags'])
    res['e1'] = _w(egood, sums[2] / size, nan)
    res['e2'] = _w(egood, sums[3] / size, nan)
    res['e'] = np.array([res['e1'], res['e2']])
    c = np.zeros((2, 2))
    for k in range(2):
        c[k, k] = _w(egood, ratio_var(
            sums[2+k], size, sums_cov[2+k, 2+k], sums_cov[4, 4],
            sums_cov[2+k, 4]), nan)
        c[k, 1-k] = _w(egood, 0.0, nan)
    res['e_cov'] = c
    return res
