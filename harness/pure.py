"""a run changes nothing it is given and depends on nothing else"""
import copy

from .common import pixels
from .mdet import Setup, _conf, TYPES

PLANES = ('image', 'weight', 'bmask', 'ormask', 'noise', 'mfrac')
DRAWS = ('normal', 'uniform', 'randn', 'rand', 'random', 'random_sample',
         'standard_normal', 'randint', 'choice', 'permutation', 'shuffle')


def _have(o, n):
    try:
        return getattr(o, 'has_' + n)()
    except AttributeError:
        return hasattr(o, n)


def _snap(mb):
    out = []
    for ol in mb:
        for o in ol:
            out.append((o, {n: getattr(o, n).copy() for n in PLANES
                            if _have(o, n)}, o.psf.image.copy(),
                        o.psf.weight.copy(), repr(o.jacobian),
                        repr(o.psf.jacobian)))
    return [len(ol) for ol in mb], out


def _same(env, mb, snap):
    n, obss = snap
    env.check('bands and epochs', [len(ol) for ol in mb] == n)
    got = [o for ol in mb for o in ol]
    for g, (o, pl, psf, pw, jac, pjac) in zip(got, obss):
        env.check('the same images', g is o)
        env.check('planes', [p for p in PLANES if _have(o, p)]
                  == [p for p in PLANES if p in pl])
        for p in pl:
            env.check_eq('%s of the input' % p, getattr(o, p), pl[p])
        env.check_eq('psf of the input', o.psf.image, psf)
        env.check_eq('psf weight of the input', o.psf.weight, pw)
        env.check('jacobians', repr(o.jacobian) == jac
                  and repr(o.psf.jacobian) == pjac)


class _Global(object):
    """the global random generator, which nobody may use"""
    def __init__(self, env):
        self.used = []
        self.r = env.np.random
        self.old = {}
        for n in DRAWS:
            self.old[n] = self.r.__dict__.get(n, self)
            setattr(self.r, n, self.call(n))

    def call(self, n):
        def f(*a, **k):
            self.used.append(n)
            return getattr(self.np_rng(), n)(*a, **k)
        return f

    def np_rng(self):
        return self.r.RandomState(7)

    def end(self):
        for n, o in self.old.items():
            if o is self:
                delattr(self.r, n)
            else:
                setattr(self.r, n, o)


def _equal(env, a, b):
    env.check('types again', (a is None) == (b is None)
              and (a is None or sorted(a) == sorted(b)))
    for t in a or ():
        if a[t] is None or b[t] is None:
            env.check('nothing again', a[t] is b[t])
            continue
        env.check('columns again', a[t].dtype.names == b[t].dtype.names
                  and a[t].size == b[t].size)
        for n in a[t].dtype.names:
            if n.endswith('bands') or n.endswith('str'):
                env.check('%s again' % n, [str(x) for x in a[t][n]]
                          == [str(x) for x in b[t][n]])
            else:
                x, y = a[t][n].ravel(), b[t][n].ravel()
                for i in range(x.size):
                    # of any value, also nan
                    env.check('%s again' % n, env.Or(
                        x[i] == y[i],
                        env.And(env.isnan(x[i]), env.isnan(y[i]))))


def run(env, dims, nband, conf=None, fitters=None, combs=None, dets=None,
        nkey=0, types=None, ndet=1, planes='bomn', mcal_fail=(),
        psf_fail=(), what=''):
    """all that is sent is as before, and a second run gives the same"""
    md = env.mod('metadetect.metadetect')
    np = env.np
    ty = types or ['noshear', '1p']
    objs = {t: [(np.float64(.25 + i), np.float64(.75 + i / 2))
                for i in range(ndet)] for t in ty}
    S = Setup(env, dims, nband, types=ty, objs=objs, mcal_fail=mcal_fail,
              psf_fail=[tuple(p) for p in psf_fail])
    mbs = []
    for key in range(nkey + 1):
        P = {'weight': [], 'bmask': [], 'ormask': [], 'mfrac': [], 'noise': []}
        for b in range(nband):
            q = '%d%d' % (key, b)
            w = np.zeros(dims) + (env.real('w' + q, 1 / 8, 100)
                                  if 'w' in what else 2.0 + b)
            w[0, dims[1] - 1] = 0
            P['weight'].append(w)
            P['bmask'].append(env.arr_bv('b' + q, dims) if 'b' in planes
                              else None)
            P['ormask'].append(env.arr_bv('o' + q, dims) if 'o' in planes
                               else None)
            P['mfrac'].append(env.arr_real('m' + q, dims, 0, .5)
                              if 'm' in planes else None)
            P['noise'].append(env.arr_real('n' + q, dims, -1, 1)
                              if 'n' in planes else None)
        mb = S.inputs(key, **P)
        for b in range(nband):
            # the images themselves may be anything
            o = mb[b][0]
            o.set_image(env.arr_real('i%d%d' % (key, b), dims, -9, 9))
            S.pres[key, b] = {'flags': 0, 'T': env.real(
                'T%d%d' % (key, b), 0, 9), 'e': env.arr_real(
                    'e%d%d' % (key, b), 2, -.5, .5)}
        mbs.append(mb)
    c = _conf(conf)
    c['metacal']['types'] = ty
    if fitters:
        c['fitters'] = copy.deepcopy(fitters)
        c.pop('model', None)
        c.pop('weight', None)
    if conf and 'model' in conf and 'weight' not in conf:
        c.pop('weight', None)
    kw = {}
    if combs is not None:
        kw['shear_band_combs'] = copy.deepcopy(combs)
    if dets is not None:
        kw['det_band_combs'] = copy.deepcopy(dets)
    if nkey:
        kw['color_key_func'] = lambda flux: 'c1'
        kw['color_dep_mbobs'] = {'c%d' % k: mbs[k]
                                 for k in range(1, nkey + 1)}
    rng = env.rng()
    snaps = [_snap(mb) for mb in mbs]
    mine = copy.deepcopy(c)
    lists = {k: copy.deepcopy(v) for k, v in kw.items() if 'comb' in k}
    glob = _Global(env)
    try:
        r = md.do_metadetect(c, mbs[0], rng, **kw)
        once = copy.deepcopy(c)
        r2 = md.do_metadetect(c, mbs[0], rng, **kw)
    finally:
        glob.end()
    env.check('settings sent', once == mine and c == mine)
    for k, v in lists.items():
        env.check('bands sent', kw[k] == v)
    if nkey:
        env.check('colours sent', sorted(kw['color_dep_mbobs']) == [
            'c%d' % k for k in range(1, nkey + 1)])
        for k in range(1, nkey + 1):
            env.check('images of the colours',
                      kw['color_dep_mbobs']['c%d' % k] is mbs[k])
    for mb, s in zip(mbs, snaps):
        _same(env, mb, s)
    env.check('no other random numbers', not glob.used)
    _equal(env, r, r2)
