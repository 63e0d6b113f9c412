from .prepsfmom import KSigmaMom  # noqa
