"""postage stamps and detection input (metadetect/detect.py)"""
from .common import make_obs, pixels

FILL = {'image': 0.0, 'weight': 0.0, 'seg': 0, 'bmask': 2 ** 30, 'noise': 0.0}


def _obs(env, dims, name='o', psfdims=(3, 2), jac=None, **kw):
    ngmix = env.mod('ngmix')
    psf = ngmix.Observation(env.arr_real(name + '_psf', psfdims, -10, 10))
    return make_obs(env, name, dims, psf=psf, jac=jac, **kw)


def _jac(env):
    ngmix = env.mod('ngmix')
    return ngmix.Jacobian(row=1.5, col=0.5, **{
        k: env.real(k, -2, 2) for k in ('dvdrow', 'dvdcol', 'dudrow',
                                        'dudcol')})


def _mb(env, obss):
    ngmix = env.mod('ngmix')
    mb = ngmix.MultiBandObsList()
    for o in obss:
        ol = ngmix.ObsList()
        ol.append(o)
        mb.append(ol)
    return mb


def _at(env, plane, r, c, dims, fill):
    """plane[r, c], fill outside; r and c may be symbolic"""
    v = fill
    for i, j in pixels(dims):
        v = env.ite(env.And(r == i, c == j), plane[i, j], v)
    return v


def _window(env, label, cut, plane, r0, c0, box, fill):
    env.shape_is(label + ' shape', cut, (box, box))
    dims = tuple(plane.shape)
    for i, j in pixels((box, box)):
        env.check_eq(label, cut[i, j],
                     _at(env, plane, r0 + i, c0 + j, dims, fill))


def _record(env, cat, k, x, y, box, dims, psfdims, jac):
    """the recorded geometry of object k"""
    g = lambda n: cat[n][k, 0]
    env.check('box size', cat['box_size'][k] == box)
    env.check('ncutout', cat['ncutout'][k] == 1)
    env.check_eq('orig row', g('orig_row'), y)
    env.check_eq('orig col', g('orig_col'), x)
    for p, n, o in (('row', dims[0], y), ('col', dims[1], x)):
        s, e = g('orig_start_' + p), g('orig_end_' + p)
        env.check_eq('cutout ' + p, g('cutout_' + p), o - s)
        io = int(o) if not env.symbolic else env.np.int64(o)
        lo, hi = io - box // 2 + 1, io + box // 2 + 1
        env.check_eq('start ' + p, s, env.ite(lo < 0, 0, lo))
        env.check_eq('end ' + p, e, env.ite(hi > n, n, hi))
    env.check_eq('psf row', g('psf_cutout_row'), (psfdims[0] - 1) / 2)
    env.check_eq('psf col', g('psf_cutout_col'), (psfdims[1] - 1) / 2)
    for n in ('dudrow', 'dudcol', 'dvdrow', 'dvdcol'):
        env.check_eq('jacobian', g(n), getattr(jac, n))


def cutout(env, dims, box, what, pad=0):
    """one stamp of one plane, any position (pad: how far off the image)"""
    d = env.mod('metadetect.detect')
    np = env.np
    jac = _jac(env)
    o = _obs(env, dims, jac=jac)
    x = env.arr_real('x', 1, -pad, dims[1] - 1 + pad)
    y = env.arr_real('y', 1, -pad, dims[0] - 1 + pad)
    seg = env.arr_int('seg', dims, 0, 5, dtype='i4')
    given = what == 'seg'
    m = d.CatalogMEDSifier(_mb(env, [o]), x, y, np.array([box]),
                           number=np.array([3]) if given else None,
                           seg=seg if given else None).get_meds(0)
    c = m.get_cat()
    _record(env, c, 0, x[0], y[0], box, dims, (3, 2), jac)
    env.check('number', c['number'][0] == (3 if given else 1))
    env.check('id', c['id'][0] == (2 if given else 0))
    plane = seg if given else getattr(o, what)
    before = plane.copy()
    cut = m.get_cutout(0, 0, type=what)
    _window(env, what, cut, before, c['orig_start_row'][0, 0],
            c['orig_start_col'][0, 0], box, FILL[what])
    # stamps are copies
    again = m.get_cutout(0, 0, type=what)
    env.check_eq('same again', again, cut)
    was = again.copy()
    cut[0, 0] = cut[0, 0] + 1
    env.check_eq('source untouched', plane, before)
    env.check_eq('other stamp untouched', again, was)


def badtype(env):
    d = env.mod('metadetect.detect')
    np = env.np
    o = _obs(env, (2, 3))
    m = d.CatalogMEDSifier(_mb(env, [o]), np.array([1.0]), np.array([1.0]),
                           np.array([2])).get_meds(0)
    for t in ('ormask', 'Image', '', 'mfrac'):
        _, e = env.attempt(m.get_cutout, 0, 0, type=t)
        env.check('bad type refused', isinstance(e, ValueError))
    p = m.get_cutout(0, 0, type='psf')
    env.check_eq('psf', p, o.psf.image)
    p[0, 0] = p[0, 0] + 1
    env.check('psf is a copy', env.Not(env.close(p[0, 0], o.psf.image[0, 0])))
    env.check_eq('no seg', m.get_cutout(0, 0, type='seg'),
                 np.zeros((2, 2), dtype='i4'))


def stamps(env, dims, boxes, nband=1):
    """several objects and bands: the observations made for each"""
    d = env.mod('metadetect.detect')
    np = env.np
    n = len(boxes)
    jac = _jac(env)
    obss = [_obs(env, dims, 'b%d' % b, psfdims=(3, 2), jac=jac,
                 wmin=1 / 8) for b in range(nband)]
    # concrete pixels, arbitrary subpixel positions
    x = env.arr_real('x', n, 0, dims[1] - 1)
    y = env.arr_real('y', n, 0, dims[0] - 1)
    mbm = d.CatalogMEDSifier(_mb(env, obss), x, y,
                             np.array(boxes)).get_multiband_meds()
    ml = mbm.get_mbobs_list()
    env.check('one per object', len(ml) == n)
    # one after the other, looked at afterwards
    cuts = [[mbm.mlist[b].get_cutout(k, 0) for b in range(nband)]
            for k in range(n)]
    for k in range(n):
        env.check('one per band', len(ml[k]) == nband)
        for b in range(nband):
            env.check('one epoch', len(ml[k][b]) == 1)
            s, o = ml[k][b][0], obss[b]
            c = mbm.mlist[b].get_cat()
            r0, c0 = c['orig_start_row'][k, 0], c['orig_start_col'][k, 0]
            for w in ('image', 'bmask'):
                _window(env, w, getattr(s, w), getattr(o, w), r0, c0,
                        boxes[k], FILL[w])
            _window(env, 'stamp', cuts[k][b], o.image, r0, c0, boxes[k],
                    FILL['image'])
            # the stamp centre is the object in the full image
            env.check_eq('centre row', s.jacobian.row0 + r0, y[k])
            env.check_eq('centre col', s.jacobian.col0 + c0, x[k])
            env.check_eq('psf', s.psf.image, o.psf.image)


SXDT = [('number', 'i4'), ('x', 'f8'), ('y', 'f8'), ('xmin', 'i4'),
        ('xmax', 'i4'), ('ymin', 'i4'), ('ymax', 'i4'), ('a', 'f4'),
        ('b', 'f4'), ('flux_radius', 'f4'), ('iso_radius', 'f4')]


def _hook(env, objs, seg, calls):
    def run_sep(**k):
        calls.append(k)
        return objs, seg
    env.mod('sxdes').hooks['run_sep'] = run_sep


def _median(env, w, dims):
    """median of the positive weights"""
    vals = [w[i, j] for i, j in pixels(dims) if env.fork(w[i, j] > 0)]
    return env.np.median(env.np.array(vals))


def detin(env, dims, nband, sx=True, bm=None, zero=(), nodet=5):
    """what is handed to the detection: image, noise, mask and settings"""
    d = env.mod('metadetect.detect')
    np = env.np
    bm = [True] * nband if bm is None else bm
    obss = [_obs(env, dims, 'b%d' % b, noise=False, bmask=bm[b],
                 wmin=0 if zero is None else 1 / 8) for b in range(nband)]
    for b, i, j in zero or ():
        with obss[b].writeable():
            obss[b].weight[i, j] = 0
    objs = np.zeros(0, dtype=SXDT)
    seg = np.zeros(dims, dtype='i4')
    calls = []
    _hook(env, objs, seg, calls)
    conf = {'filter_kernel': [[1.0, 2.0], [0.5, 1.0]], 'detect_thresh': 0.7,
            'minarea': 4} if sx else None
    kw = {} if (nodet == 0) else {'nodet_flags': nodet}
    before = [o.image.copy() for o in obss]
    m = d.MEDSifier(_mb(env, obss), conf,
                    dict(box_type='iso_radius'), **kw)
    env.check('one detection', len(calls) == 1)
    k = calls[0]
    wm = [_median(env, o.weight, dims) for o in obss]
    wsum = sum(wm)
    for p in pixels(dims):
        env.check_eq('detection image', k['image'][p],
                     sum(w * o.image[p] for w, o in zip(wm, obss)) / wsum)
        env.check_eq('detection mask', k['mask'][p], env.Or(*[
            (o.bmask[p] & nodet) != 0 for b, o in enumerate(obss) if bm[b]]))
    env.check_eq('detection noise', k['noise'] * k['noise'] * wsum,
                 np.float64(1))
    env.check('noise positive', k['noise'] > 0)
    for o, b in zip(obss, before):
        env.check_eq('bands untouched', o.image, b)
    if sx:
        env.check('threshold', k['thresh'] == 0.7)
        env.check('settings', sorted(k['config']) == ['filter_kernel',
                                                      'minarea'])
        env.check_eq('kernel', k['config']['filter_kernel'],
                     np.array([[1.0, 2.0], [0.5, 1.0]]))
        env.check('input settings kept', sorted(conf) == [
            'detect_thresh', 'filter_kernel', 'minarea']
            and isinstance(conf['filter_kernel'], list))
    else:
        sxd = env.mod('sxdes')
        env.check('default settings', k['config'] == sxd.SX_CONFIG
                  and k['thresh'] == sxd.DETECT_THRESH)
    env.check('empty', m.cat.size == 0)
    env.check('segmentation', m.seg is seg)


SIZES = [2, 3, 4, 6, 8, 12, 16, 24, 32, 48, 64, 96, 128, 192, 256, 384, 512,
         768, 1024, 1536, 2048, 3072, 4096, 6144]


def _want_box(env, size, lo, hi):
    """round up to an allowed size in the range"""
    allowed = [s for s in SIZES if lo <= s <= hi]
    if hi not in allowed:
        allowed.append(hi)
    v = allowed[-1]
    for s in reversed(allowed):
        v = env.ite(size <= s, s, v)
    return v


def detcat(env, dims, box_type, lo, hi, n=1, rec=False, **kw):
    """the catalogue made from the detections"""
    d = env.mod('metadetect.detect')
    np = env.np
    jac = _jac(env)
    o = _obs(env, dims, noise=False, jac=jac, wmin=1 / 8)
    o2 = _obs(env, dims, 'p', noise=False, wmin=1 / 8, psfdims=(2, 2))
    # the jacobian scale is the root of the determinant
    env.assume(jac.det >= 1 / 16)
    objs = np.zeros(n, dtype=SXDT)
    objs['x'] = env.arr_real('x', n, 0, dims[1] - 1)
    objs['y'] = env.arr_real('y', n, 0, dims[0] - 1)
    sizes = []
    for k in range(n):
        objs['number'][k] = k + 1
        if box_type == 'iso_radius':
            rad = env.real('rad%d' % k, 0, 2000)
            objs['iso_radius'][k] = rad
            r = env.ite(rad < kw['rad_min'], kw['rad_min'], rad)
            sizes.append(2 * kw['rad_fac'] * r + kw['box_padding'])
        else:
            for c in ('x', 'y'):
                a = env.int(c + 'min%d' % k, 0, 400)
                b = env.int(c + 'max%d' % k, 0, 400)
                env.assume(a <= b)
                objs[c + 'min'][k] = a
                objs[c + 'max'][k] = b
            fr = env.real('fr%d' % k, 0, 300)
            q = env.real('q%d' % k, 0, 1)
            objs['a'][k] = 2.0
            objs['b'][k] = 2.0 * q
            objs['flux_radius'][k] = fr
            fac = np.float64(2 / (2 * (2 * 0.6931471805599453) ** .5))
            r = fr * fac * kw['sigma_fac'] * (2 - q)
            sizes.append((r, objs['xmax'][k] - objs['xmin'][k] + 1,
                          objs['ymax'][k] - objs['ymin'][k] + 1))
    calls = []
    seg = np.zeros(dims, dtype='i4')
    _hook(env, objs, seg, calls)
    conf = dict(box_type=box_type, min_box_size=lo, max_box_size=hi, **kw)
    m = d.MEDSifier(_mb(env, [o, o2]), None, conf)
    cat = m.cat
    env.check('one per detection', cat.size == n)
    for k in range(n):
        b = cat['box_size'][k]
        env.check('number', cat['number'][k] == k + 1)
        env.check('id', cat['id'][k] == k)
        if box_type == 'iso_radius':
            env.check_eq('iso radius in sky units',
                         (cat['iso_radius_arcsec'][k]) ** 2,
                         objs['iso_radius'][k] ** 2 * jac.det, tol=1e-3)
            # the size is truncated to whole pixels and then rounded up to
            # an allowed size
            t = sizes[k]
            near = t - np.floor(t)
            env.assume(env.And(near > 1 / 1024, near < 1023 / 1024))
            env.check_eq('box size', b, _want_box(env, np.floor(t), lo, hi))
        else:
            r, w, h = sizes[k]
            near = r - np.floor(r)
            env.assume(env.And(near > 1 / 1024, near < 1023 / 1024))
            t = 2 * np.floor(r) + 2
            t = env.ite(t < w, w, t)
            t = env.ite(t < h, h, t)
            env.check_eq('box size', b, _want_box(env, t, lo, hi))
        if rec:
            _record(env, cat, k, objs['x'][k], objs['y'][k],
                    b, dims, (3, 2), jac)


def badbox(env):
    d = env.mod('metadetect.detect')
    np = env.np
    o = _obs(env, (2, 2), noise=False, wmin=1 / 8)
    objs = np.zeros(1, dtype=SXDT)
    _hook(env, objs, np.zeros((2, 2), dtype='i4'), [])
    _, e = env.attempt(d.MEDSifier, _mb(env, [o]), None,
                       dict(box_type='nope', min_box_size=2, max_box_size=4))
    env.check('unknown box type refused', isinstance(e, ValueError))
