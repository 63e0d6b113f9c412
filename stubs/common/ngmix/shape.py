import numpy as np


def e1e2_to_g1g2(e1, e2):
    """monotonic e -> g; g = e / (1 + sqrt(1 - e^2))"""
    e2tot = e1 * e1 + e2 * e2
    den = 1 + np.sqrt(1 - e2tot)
    return e1 / den, e2 / den
