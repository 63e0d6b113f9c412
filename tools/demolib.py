"""small stand-ins for what metadetect calls, for demonstrations"""
import mdload  # noqa
import numpy as np
import ngmix
import sxdes

TYPES = ['noshear', '1p', '1m', '2p', '2m']
SXDT = [('number', 'i4'), ('x', 'f8'), ('y', 'f8'), ('iso_radius', 'f4')]
CONF = {
    'metacal': {'use_noise_image': True, 'psf': 'fitgauss'},
    'meds': {'box_type': 'iso_radius', 'rad_min': 1, 'rad_fac': 1,
             'box_padding': 0, 'min_box_size': 2, 'max_box_size': 2},
    'model': 'wmom', 'weight': {'fwhm': 1.2},
}


def conf(**kw):
    c = {k: (dict(v) if isinstance(v, dict) else v) for k, v in CONF.items()}
    c.update(kw)
    if 'fitters' in c:
        del c['model'], c['weight']
    return c


def image(code, dims, weight=2.0, bmask=None, ormask=None, **kw):
    jac = ngmix.Jacobian(row=1.25, col=.5, dudrow=.25, dudcol=.5,
                         dvdrow=.5, dvdcol=-.25)
    psf = ngmix.Observation(
        np.zeros((1, 1)) + code,
        jacobian=ngmix.DiagonalJacobian(scale=.25, row=0, col=0))
    z = np.zeros(dims, dtype='i4')
    return ngmix.Observation(
        np.zeros(dims) + code, weight=np.zeros(dims) + weight, psf=psf,
        bmask=z if bmask is None else bmask,
        ormask=z if ormask is None else ormask, jacobian=jac,
        ignore_zero_weight=False, **kw)


def mb(*obss):
    r = ngmix.MultiBandObsList()
    for o in obss:
        ol = ngmix.ObsList()
        ol.append(o)
        r.append(ol)
    return r


class World(object):
    """images are constants 1000 * colour + 10 * type + band + 1"""
    def __init__(self, dims, objs, types=TYPES):
        self.dims, self.objs, self.types = dims, objs, types
        self.keys, self.det, self.mcal_fail = {}, [], []
        self.psf = {}
        ngmix.hooks.update(
            get_all_metacal=self.metacal, psf_runner_go=self.psf_go,
            fitter_go=self.go, flags_str=lambda v: 'x')
        sxdes.hooks['run_sep'] = self.sep

    def inputs(self, nband, key=0, **planes):
        o = []
        for b in range(nband):
            o.append(image(1000 * key + b + 1, self.dims, **{
                k: v[b] for k, v in planes.items() if v[b] is not None}))
        m = mb(*o)
        self.keys[id(m)] = key
        return m

    def metacal(self, mbobs, rng, kw):
        key = self.keys[id(mbobs)]
        if key in self.mcal_fail:
            raise ngmix.gexceptions.BootPSFFailure('x')
        return {t: mb(*[image(1000 * key + 10 * (1 + TYPES.index(t)) + b + 1,
                              self.dims) for b in range(len(mbobs))])
                for t in self.types}

    def psf_go(self, runner, psf):
        v = int(psf.image[0, 0])
        return self.psf.get(v, {'flags': 0, 'T': .5 + v, 'e': np.array(
            [.01 * v, .02 * v])})

    def sep(self, **k):
        t = TYPES[int(k['image'][0, 0]) % 1000 // 10 - 1]
        self.det.append((t, k))
        o = self.objs.get(t, [])
        a = np.zeros(len(o), dtype=SXDT)
        for i, (y, x) in enumerate(o):
            a[i] = i + 1, x, y, 1
        return a, np.zeros(self.dims, dtype='i4')

    def go(self, fitter, obs, *a, **kw):
        v = float(obs.image.max())
        s = np.array([0., 0., .25, .5, 4., v])
        return {'flags': 0, 'flagstr': '', 'sums': s, 'sums_cov': np.eye(6),
                'flux': v, 'flux_err': 2., 'flux_flags': 0, 'pars': s,
                'T': .5}


def go(w, m, c=None, **kw):
    from metadetect import metadetect as md
    return md.do_metadetect(c or conf(), m, np.random.RandomState(1), **kw)
