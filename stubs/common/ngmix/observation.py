import copy
from contextlib import contextmanager

import numpy as np

from .gexceptions import GMixFatalError
from .jacobian import UnitJacobian

_OPT = ('bmask', 'ormask', 'noise', 'mfrac')


class MetadataMixin:
    @property
    def meta(self):
        return self._meta

    @meta.setter
    def meta(self, m):
        self.set_meta(m)

    def set_meta(self, meta):
        self._meta = {} if meta is None else meta

    def update_meta_data(self, meta):
        self._meta.update(meta)


class Observation(MetadataMixin):
    def __init__(self, image, weight=None, bmask=None, ormask=None,
                 noise=None, jacobian=None, gmix=None, psf=None, meta=None,
                 mfrac=None, ignore_zero_weight=True, store_pixels=True):
        self._writeable = False
        self._ignore_zero_weight = ignore_zero_weight
        self._store_pixels = store_pixels
        self._d = {}
        self._gmix = gmix
        self._psf = None
        self.set_meta(meta)
        image = np.asarray(image)
        assert image.ndim == 2
        self._set('image', image, 'f8')
        if weight is None:
            weight = np.ones_like(self._d['image'])
        self._set('weight', np.asarray(weight), 'f8')
        for n, v in (('bmask', bmask), ('ormask', ormask), ('noise', noise),
                     ('mfrac', mfrac)):
            if v is not None:
                self._set(n, np.asarray(v),
                          'i4' if n in ('bmask', 'ormask') else 'f8')
        if jacobian is None:
            jacobian = UnitJacobian(row=(image.shape[0]-1)/2,
                                    col=(image.shape[1]-1)/2)
        self._jacobian = jacobian.copy()
        if psf is not None:
            self.set_psf(psf)
        self.update_pixels()

    def _set(self, n, v, dt):
        if n != 'image':
            assert tuple(v.shape) == tuple(self._d['image'].shape), \
                'image and %s must be same shape' % n
        if v.dtype != np.dtype(dt):
            v = v.astype(dt)
        self._d[n] = v

    def update_pixels(self):
        if not self._store_pixels:
            return
        if self._ignore_zero_weight and not np.any(self._d['weight'] > 0):
            raise GMixFatalError('no weights > 0')

    def _get(self, n):
        if n not in self._d:
            raise AttributeError('this obs has no %s set' % n)
        v = self._d[n].view()
        v.flags.writeable = self._writeable
        return v

    def _put(self, n, v, dt):
        if v is None:
            if n in ('image', 'weight'):
                raise ValueError('cannot unset %s' % n)
            self._d.pop(n, None)
            return
        self._set(n, np.asarray(v), dt)
        if n in ('image', 'weight') and not self._writeable:
            self.update_pixels()

    image = property(lambda s: s._get('image'),
                     lambda s, v: s.set_image(v))
    weight = property(lambda s: s._get('weight'),
                      lambda s, v: s.set_weight(v))
    bmask = property(lambda s: s._get('bmask'), lambda s, v: s.set_bmask(v))
    ormask = property(lambda s: s._get('ormask'),
                      lambda s, v: s.set_ormask(v))
    noise = property(lambda s: s._get('noise'), lambda s, v: s.set_noise(v))
    mfrac = property(lambda s: s._get('mfrac'), lambda s, v: s.set_mfrac(v))

    def set_image(self, v, update_pixels=True):
        self._put('image', v, 'f8')

    def set_weight(self, v, update_pixels=True):
        self._put('weight', v, 'f8')

    def set_bmask(self, v):
        self._put('bmask', v, 'i4')

    def set_ormask(self, v):
        self._put('ormask', v, 'i4')

    def set_noise(self, v):
        self._put('noise', v, 'f8')

    def set_mfrac(self, v, update_pixels=True):
        self._put('mfrac', v, 'f8')

    def has_bmask(self):
        return 'bmask' in self._d

    def has_ormask(self):
        return 'ormask' in self._d

    def has_noise(self):
        return 'noise' in self._d

    def has_mfrac(self):
        return 'mfrac' in self._d

    @property
    def ignore_zero_weight(self):
        return self._ignore_zero_weight

    @ignore_zero_weight.setter
    def ignore_zero_weight(self, v):
        self._ignore_zero_weight = v

    @property
    def store_pixels(self):
        return self._store_pixels

    @property
    def jacobian(self):
        return self._jacobian

    @jacobian.setter
    def jacobian(self, j):
        self._jacobian = j.copy()

    def get_jacobian(self):
        return self._jacobian.copy()

    def set_jacobian(self, j, update_pixels=True):
        self._jacobian = j.copy()

    @property
    def psf(self):
        if self._psf is None:
            raise AttributeError('no psf')
        return self._psf

    @psf.setter
    def psf(self, p):
        self.set_psf(p)

    def get_psf(self):
        if self._psf is None:
            raise RuntimeError('this obs has no psf set')
        return self._psf

    def set_psf(self, psf):
        self._psf = psf

    def has_psf(self):
        return self._psf is not None

    @property
    def gmix(self):
        if self._gmix is None:
            raise AttributeError('no gmix')
        return self._gmix

    def set_gmix(self, g):
        self._gmix = g

    def has_gmix(self):
        return self._gmix is not None

    def has_psf_gmix(self):
        return self.has_psf() and self.psf.has_gmix()

    def copy(self):
        return copy.deepcopy(self)

    def __deepcopy__(self, memo):
        new = Observation.__new__(type(self))
        memo[id(self)] = new
        for k, v in self.__dict__.items():
            if k == '_d':
                new._d = {n: a.copy() for n, a in v.items()}
            else:
                new.__dict__[k] = copy.deepcopy(v, memo)
        new._writeable = False
        return new

    @contextmanager
    def writeable(self):
        self._writeable = True
        try:
            yield self
        finally:
            self._writeable = False
            self.update_pixels()


class ObsList(list, MetadataMixin):
    def __init__(self, meta=None):
        super().__init__()
        self.set_meta(meta)

    def append(self, o):
        assert isinstance(o, Observation), \
            'obs should be of type Observation, got %s' % type(o)
        super().append(o)

    def __setitem__(self, i, o):
        assert isinstance(o, Observation)
        super().__setitem__(i, o)

    def copy(self):
        return copy.deepcopy(self)

    def __deepcopy__(self, memo):
        new = ObsList(meta=copy.deepcopy(self._meta, memo))
        for o in self:
            new.append(copy.deepcopy(o, memo))
        return new


class MultiBandObsList(list, MetadataMixin):
    def __init__(self, meta=None):
        super().__init__()
        self.set_meta(meta)

    def append(self, o):
        assert isinstance(o, ObsList), \
            'obs_list should be of type ObsList'
        super().append(o)

    def __setitem__(self, i, o):
        assert isinstance(o, ObsList)
        super().__setitem__(i, o)

    def copy(self):
        return copy.deepcopy(self)

    def __deepcopy__(self, memo):
        new = MultiBandObsList(meta=copy.deepcopy(self._meta, memo))
        for o in self:
            new.append(copy.deepcopy(o, memo))
        return new


def get_mb_obs(obs_in):
    if isinstance(obs_in, Observation):
        ol = ObsList()
        ol.append(obs_in)
        mb = MultiBandObsList()
        mb.append(ol)
    elif isinstance(obs_in, ObsList):
        mb = MultiBandObsList()
        mb.append(obs_in)
    elif isinstance(obs_in, MultiBandObsList):
        mb = obs_in
    else:
        raise ValueError('obs should be Observation, ObsList, or '
                         'MultiBandObsList')
    return mb
