"""
A small stand-in for ngmix (not installed here) with the documented semantics
that metadetect relies on.  Fitters, runners and metacal delegate to hooks set
by a harness: their results are arbitrary values.
"""
__version__ = '2.3.0'

# harness supplied behaviour
hooks = {}

from . import gexceptions  # noqa
from .gexceptions import *  # noqa
from . import flags  # noqa
from . import shape  # noqa
from . import moments  # noqa
from . import jacobian  # noqa
from .jacobian import Jacobian, DiagonalJacobian, UnitJacobian  # noqa
from . import observation  # noqa
from .observation import (  # noqa
    Observation, ObsList, MultiBandObsList, get_mb_obs,
)
from . import gmix  # noqa
from .gmix import GMixModel, GMix  # noqa
from . import runners  # noqa
from . import fitting  # noqa
from . import admom  # noqa
from . import gaussmom  # noqa
from . import ksigmamom  # noqa
from . import prepsfmom  # noqa
from . import guessers  # noqa
from . import priors  # noqa
from . import joint_prior  # noqa
from . import bootstrap  # noqa
from . import metacal  # noqa
