import numpy as np


class Jacobian:
    """v = dvdrow*(row-row0) + dvdcol*(col-col0), u likewise"""

    def __init__(self, row=None, col=None, dvdrow=None, dvdcol=None,
                 dudrow=None, dudcol=None, x=None, y=None, dudx=None,
                 dudy=None, dvdx=None, dvdy=None, wcs=None):
        if wcs is not None:
            dudx, dudy, dvdx, dvdy = wcs.dudx, wcs.dudy, wcs.dvdx, wcs.dvdy
        if x is not None:
            row, col = y, x
        if dudx is not None:
            dudcol, dudrow, dvdcol, dvdrow = dudx, dudy, dvdx, dvdy
        if row is None or dvdrow is None:
            raise ValueError('send by row,col or x,y')
        self.row0, self.col0 = row, col
        self.dvdrow, self.dvdcol = dvdrow, dvdcol
        self.dudrow, self.dudcol = dudrow, dudcol

    @property
    def cen(self):
        return np.array([self.row0, self.col0])

    def get_cen(self):
        return np.array([self.row0, self.col0])

    def set_cen(self, row=None, col=None, x=None, y=None):
        if row is None:
            row, col = y, x
        self.row0, self.col0 = row, col

    def get_vu(self, row, col):
        dr, dc = row - self.row0, col - self.col0
        return (self.dvdrow * dr + self.dvdcol * dc,
                self.dudrow * dr + self.dudcol * dc)

    __call__ = get_vu

    @property
    def det(self):
        return self.dvdrow * self.dudcol - self.dvdcol * self.dudrow

    def get_det(self):
        return self.det

    @property
    def area(self):
        return abs(self.det)

    def get_rowcol(self, v, u):
        d = self.det
        row = (self.dudcol * v - self.dvdcol * u) / d + self.row0
        col = (-self.dudrow * v + self.dvdrow * u) / d + self.col0
        return row, col

    def get_scale(self):
        return np.sqrt(abs(self.det))

    @property
    def scale(self):
        return self.get_scale()

    def get_galsim_wcs(self):
        import galsim
        return galsim.JacobianWCS(dudx=self.dudcol, dudy=self.dudrow,
                                  dvdx=self.dvdcol, dvdy=self.dvdrow)

    def copy(self):
        return Jacobian(row=self.row0, col=self.col0, dvdrow=self.dvdrow,
                        dvdcol=self.dvdcol, dudrow=self.dudrow,
                        dudcol=self.dudcol)

    def __deepcopy__(self, memo):
        return self.copy()

    def __repr__(self):
        return 'row0: %r col0: %r dvdrow: %r dvdcol: %r dudrow: %r dudcol: %r' % (
            self.row0, self.col0, self.dvdrow, self.dvdcol, self.dudrow,
            self.dudcol)


class DiagonalJacobian(Jacobian):
    def __init__(self, scale=1.0, row=None, col=None, x=None, y=None):
        super().__init__(row=row, col=col, x=x, y=y, dvdrow=scale, dvdcol=0.0,
                         dudrow=0.0, dudcol=scale)


class UnitJacobian(DiagonalJacobian):
    pass
