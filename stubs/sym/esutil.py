"""stand-in for the parts of esutil that are used"""
import numpy as np


class _NU:
    @staticmethod
    def add_fields(arr, add_dtype):
        old = arr.dtype.names
        for d in add_dtype:
            if d[0] in old:
                raise ValueError('field %s already exists' % d[0])
        dt = [(n,) + _spec(arr.dtype.fields[n][0]) for n in old] + list(
            add_dtype)
        new = np.zeros(arr.shape, dtype=dt)
        for n in old:
            new[n] = arr[n]
        return new

    @staticmethod
    def combine_arrlist(arrlist, keep=False):
        out = np.hstack(list(arrlist))
        if not keep:
            del arrlist[:]
        return out


def _spec(d):
    if d.subdtype:
        return (d.subdtype[0], d.subdtype[1])
    return (d,)


numpy_util = _NU()
