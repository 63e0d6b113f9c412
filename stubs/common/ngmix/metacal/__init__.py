from . import metacal  # noqa
from .metacal import _get_gauss_target_psf, _get_ellip_dilation  # noqa

METACAL_MINIMAL_TYPES = ['noshear', '1p', '1m', '2p', '2m']
METACAL_TYPES = METACAL_MINIMAL_TYPES + ['1p_psf', '1m_psf', '2p_psf',
                                         '2m_psf']
DEFAULT_STEP = 0.01


def get_all_metacal(obs, rng=None, **kw):
    from .. import hooks
    return hooks['get_all_metacal'](obs, rng, kw)
