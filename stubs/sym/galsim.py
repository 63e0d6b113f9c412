"""stand-in for galsim in the symbolic world"""
import numpy as np


class Shear:
    def __init__(self, g1=0.0, g2=0.0):
        self.g1 = g1
        self.g2 = g2

    def getMatrix(self):
        s = np.sqrt(1 - self.g1**2 - self.g2**2)
        return np.array([[1 + self.g1, self.g2], [self.g2, 1 - self.g1]],
                        dtype='f8') / s


class JacobianWCS:
    def __init__(self, dudx, dudy, dvdx, dvdy):
        self.dudx, self.dudy, self.dvdx, self.dvdy = dudx, dudy, dvdx, dvdy
