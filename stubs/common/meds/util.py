import numpy as np


def get_image_info_struct(nimage, path_len, image_id_len=None,
                          wcs_len=None, ext_len=None, extra_dtype=None):
    dt = [('image_id', 'i8'), ('image_flags', 'i8'), ('magzp', 'f4'),
          ('scale', 'f4'), ('position_offset', 'f8')]
    for n in ('image', 'weight', 'seg', 'bmask', 'bkg'):
        dt += [('%s_path' % n, 'U%d' % path_len), ('%s_ext' % n, 'i2')]
    if wcs_len is not None:
        dt += [('wcs', 'U%d' % wcs_len)]
    if extra_dtype is not None:
        dt += list(extra_dtype)
    data = np.zeros(nimage, dtype=dt)
    data['scale'] = 1.0
    return data
