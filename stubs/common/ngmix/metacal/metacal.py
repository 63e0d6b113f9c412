def _get_gauss_target_psf(psf, flux):
    from .. import hooks
    return hooks['gauss_target_psf'](psf, flux)


def _get_ellip_dilation(e1, e2, T):
    from .. import hooks
    return hooks["ellip_dilation"](e1, e2, T)
