from .observation import Observation, ObsList, MultiBandObsList
from .jacobian import Jacobian
from .gexceptions import GMixFatalError
import numpy as np


class NGMixMEDS:
    """reader of a MEDS-like object; subclasses set _cat, _image_types and
    provide get_cutout and get_psf"""

    @property
    def size(self):
        return self._cat.size

    def get_cat(self):
        return self._cat

    def get_image_info(self):
        return self._image_info

    def _check_indices(self, iobj, icutout=None):
        if iobj < 0 or iobj >= self._cat.size:
            raise ValueError('object index should be within [0,%s)'
                             % self._cat.size)
        if icutout is not None:
            n = self._cat['ncutout'][iobj]
            if icutout < 0 or icutout >= n:
                raise ValueError('requested cutout index %s for object %s '
                                 'should be in bounds [0,%s)'
                                 % (icutout, iobj, n))

    def get_jacobian(self, iobj, icut):
        c = self._cat
        return {
            'row0': c['cutout_row'][iobj, icut],
            'col0': c['cutout_col'][iobj, icut],
            'dudrow': c['dudrow'][iobj, icut],
            'dudcol': c['dudcol'][iobj, icut],
            'dvdrow': c['dvdrow'][iobj, icut],
            'dvdcol': c['dvdcol'][iobj, icut],
        }

    def get_ngmix_jacobian(self, iobj, icut):
        d = self.get_jacobian(iobj, icut)
        return Jacobian(row=d['row0'], col=d['col0'], dudrow=d['dudrow'],
                        dudcol=d['dudcol'], dvdrow=d['dvdrow'],
                        dvdcol=d['dvdcol'])

    def _optional(self, iobj, icut, type):
        try:
            return self.get_cutout(iobj, icut, type=type)
        except AttributeError:
            return None

    def get_psf_obs(self, iobj, icut):
        im = self.get_psf(iobj, icut)
        j = self.get_ngmix_jacobian(iobj, icut)
        j.set_cen(row=self._cat['psf_cutout_row'][iobj, icut],
                  col=self._cat['psf_cutout_col'][iobj, icut])
        return Observation(im, weight=np.zeros(im.shape) + 1.0e6, jacobian=j)

    def get_obs(self, iobj, icut, weight_type='weight'):
        self._check_indices(iobj, icutout=icut)
        im = self.get_cutout(iobj, icut, type='image')
        wt = self.get_cutout(iobj, icut, type='weight')
        if weight_type == 'uberseg':
            seg = self.get_cutout(iobj, icut, type='seg')
            num = self._cat['number'][iobj]
            # stand-in for uberseg: zero where another object is
            wt[(seg != num) & (seg != 0)] = 0.0
        elif weight_type != 'weight':
            raise ValueError("bad weight type: '%s'" % weight_type)
        return Observation(
            im, weight=wt, bmask=self._optional(iobj, icut, 'bmask'),
            noise=self._optional(iobj, icut, 'noise'),
            jacobian=self.get_ngmix_jacobian(iobj, icut),
            psf=self.get_psf_obs(iobj, icut) if self.has_psf() else None,
            meta={'id': self._cat['id'][iobj]})

    def get_obslist(self, iobj, weight_type='weight'):
        out = ObsList()
        for icut in range(int(self._cat['ncutout'][iobj])):
            try:
                out.append(self.get_obs(iobj, icut, weight_type=weight_type))
            except GMixFatalError:
                pass
        return out


class MultiBandNGMixMEDS:
    def __init__(self, mlist):
        self.mlist = mlist

    @property
    def size(self):
        return self.mlist[0].size

    def get_mbobs(self, iobj, weight_type='weight'):
        mb = MultiBandObsList()
        for m in self.mlist:
            mb.append(m.get_obslist(iobj, weight_type=weight_type))
        return mb

    def get_mbobs_list(self, indices=None, weight_type='weight'):
        if indices is None:
            indices = list(range(self.size))
        return [self.get_mbobs(i, weight_type=weight_type) for i in indices]
