"""
Stand-in for the drawing part of galsim: an object is a product, in Fourier
space, of images and gaussians to some power, each with a linear
transformation; what is drawn has arbitrary pixels, and is remembered together
with the expression.
"""


class Factor:
    def __init__(self, atom, power=1, ops=()):
        self.atom, self.power, self.ops = atom, power, tuple(ops)


class Obj:
    def __init__(self, fake, factors):
        self._fake, self.factors = fake, list(factors)

    def _op(self, op):
        return Obj(self._fake, [Factor(f.atom, f.power, f.ops + (op,))
                                for f in self.factors])

    def shear(self, shear=None, **kw):
        if shear is None:
            shear = self._fake.Shear(**kw)
        return self._op(('shear', shear.g1, shear.g2))

    def dilate(self, s):
        return self._op(('dilate', s))

    def withFlux(self, f):
        return self._op(('flux', f))

    def drawImage(self, image=None, method='auto', **kw):
        fake = self._fake
        assert not kw
        a = fake.new_array(image.array.shape)
        # tells which one it is
        a[0, 0] = 20000.0 + len(fake.draws)
        image.array[:, :] = a
        fake.draws.append({'obj': self, 'wcs': image.wcs, 'method': method,
                           'dtype': str(image.array.dtype),
                           'array': a})
        return image


class Image:
    DT = 'f8'

    def __init__(self, array, wcs=None, scale=None):
        np = self.FAKE.np
        self.array = np.asarray(array)
        if self.array.dtype != np.dtype(self.DT):
            self.array = self.array.astype(self.DT)
        self.wcs = wcs

    def copy(self):
        o = type(self)(self.array.copy(), wcs=self.wcs)
        return o


def make(env, real_shear=None):
    """a namespace that can replace galsim"""
    np = env.np

    class Fake:
        pass
    fake = Fake()
    fake.np = np
    fake.draws = []

    def new_array(shape):
        return env.arr_real('drawn%d' % len(fake.draws), shape, -1000, 1000)
    fake.new_array = new_array

    class ImageD(Image):
        DT = 'f8'
        FAKE = fake

    class ImageF(Image):
        DT = 'f4'
        FAKE = fake

    class Shear:
        def __init__(self, g1=0.0, g2=0.0):
            self.g1, self.g2 = g1, g2

    class JacobianWCS:
        def __init__(self, dudx, dudy, dvdx, dvdy):
            self.m = (dudx, dudy, dvdx, dvdy)

    def InterpolatedImage(image, x_interpolant=None, **kw):
        return Obj(fake, [Factor(('image', image.array.copy(), image.wcs,
                                  x_interpolant))])

    def Gaussian(sigma=None, flux=1.0):
        return Obj(fake, [Factor(('gauss', sigma, flux))])

    def Convolve(*objs):
        if len(objs) == 1:
            objs = objs[0]
        out = []
        for o in objs:
            out += o.factors
        return Obj(fake, out)

    def Deconvolve(o):
        return Obj(fake, [Factor(f.atom, -f.power, f.ops) for f in o.factors])
    for n, f in list(locals().items()):
        if n in ('ImageD', 'ImageF', 'Shear', 'JacobianWCS',
                 'InterpolatedImage', 'Gaussian', 'Convolve', 'Deconvolve'):
            setattr(fake, n, f)
    fake.Image = ImageD
    fake.target = lambda name, psf, flux: Obj(
        fake, [Factor(('target', psf, flux))])
    return fake
