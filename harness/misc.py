"""combining fits, settings, flags"""
import copy

from . import mdet
from .common import pixels


def _table(env, k, n, sbs, extra):
    """results of a fitter: n objects"""
    np = env.np
    dt = [('f%d_flags' % k, 'i4'), ('f%d_g' % k, 'f8', 2)]
    if extra:
        dt.append(('f%d_x' % k, 'f8'))
    dt.insert(extra, ('shear_bands', 'U6'))
    a = np.zeros(n, dtype=dt)
    for i in range(n):
        a['f%d_flags' % k][i] = env.int('fl%d_%d' % (k, i), 0, 7)
        for j in range(2):
            a['f%d_g' % k][i, j] = env.real('g%d_%d_%d' % (k, i, j))
        if extra:
            a['f%d_x' % k][i] = env.real('x%d_%d' % (k, i))
        a['shear_bands'][i] = sbs[i]
    return a


def combine(env, sizes, vary=True):
    """results of fitters side by side; None for a fitter without results"""
    ft = env.mod('metadetect.fitting')
    parts, sbs = [], []
    for k, n in enumerate(sizes):
        if n is None:
            parts.append(None)
            sbs.append(None)
            continue
        s = [('01', '2')[env.choose('sb%d_%d' % (k, i), 2)] if vary else '012'
             for i in range(n)]
        sbs.append(s)
        parts.append(_table(env, k, n, s, k % 2))
    keep = [p if p is None else p.copy() for p in parts]
    try:
        res = ft.combine_fit_res(list(parts))
        err = None
    except RuntimeError as e:
        res, err = None, e
    if len(sizes) == 1:
        env.check('a single one as it is', err is None and res is parts[0])
        return
    if len(set(n or 0 for n in sizes)) > 1:
        env.check('different lengths', err is not None)
        return
    n = sizes[0] or 0
    given = [s for s in sbs if s is not None]
    if n > 0 and any(s != given[0] for s in given):
        env.check('different bands', err is not None)
        return
    env.check('combined', err is None)
    if all(s is None for s in sizes):
        env.check('nothing', res is None)
        return
    env.shape_is('a row for each object', res, (n,))
    names = []
    for k, p in enumerate(keep):
        if p is None:
            continue
        names += [c for c in p.dtype.names if c not in names]
        for c in p.dtype.names:
            env.check('column', c in res.dtype.names)
            if c == 'shear_bands':
                env.check('bands', [str(res[c][i]) for i in range(n)]
                          == given[0])
            elif n:
                env.check_eq('values', res[c], p[c])
    env.check('columns', sorted(res.dtype.names) == sorted(names))


MODELS = ['wmom', 'ksigma', 'pgauss', 'am', 'admom', 'gauss', 'other']


def settings(env, mode):
    """settings are accepted or rejected"""
    md = env.mod('metadetect.metadetect')
    dims = (2, 2)
    conf = {'metacal': {'types': ['noshear']}, 'meds': {
        'box_type': 'iso_radius', 'rad_min': 1, 'rad_fac': 1, 'box_padding': 0,
        'min_box_size': 2, 'max_box_size': 2}}
    on = {}

    def opt(name):
        on[name] = env.possible(env.bool(name))
        return on[name]
    kw = {}
    S = mdet.Setup(env, dims, 1, types=['noshear'], objs={'noshear': [(0., 0.)]})
    mb = S.inputs()
    model = 'wmom'
    key = None
    if mode == 'keys':
        for k in ('metacal', 'meds'):
            if not opt(k):
                del conf[k]
        if opt('fitters'):
            conf['fitters'] = [{'model': 'wmom', 'weight': {'fwhm': 1.2}}]
        for k, v in (('model', 'wmom'), ('weight', {'fwhm': 1.2}),
                     ('symmetrize', False), ('coadd', False)):
            if opt(k) or (k == 'weight' and not on['fitters']):
                conf[k] = v
                on[k] = True
    elif mode in ('model', 'fitters'):
        model = MODELS[env.choose('model', len(MODELS))]
        c = {'model': model, 'weight': {'fwhm': 1.2}}
        if mode == 'fitters':
            conf['fitters'] = [c, {'weight': {'fwhm': .5}}] if model == \
                'pgauss' else [{'model': 'pgauss', 'weight': {'fwhm': .5}}, c]
        else:
            conf.update(c)
    elif mode == 'color':
        model = MODELS[env.choose('model', 6)]
        if opt('second'):
            conf['fitters'] = [{'model': model, 'weight': {'fwhm': 1.2}},
                               {'model': 'wmom' if model != 'wmom' else 'am',
                                'weight': {'fwhm': 1.}}]
        else:
            conf.update(model=model, weight={'fwhm': 1.2})
        if opt('key'):
            kw['color_key_func'] = lambda f: None
        if opt('images'):
            kw['color_dep_mbobs'] = {}
    err, r = None, None
    made = None
    try:
        made = md.Metadetect(conf, mb, env.rng(), **kw)
        early = False
        try:
            made.result
        except RuntimeError:
            early = True
        env.check('no result before it has run', early)
        made.go()
        r = made.result
    except (RuntimeError, ValueError, AssertionError) as e:
        err = e
    if mode == 'keys':
        ok = on['metacal'] and on['meds']
        clash = on['fitters'] and any(
            on[k] for k in ('model', 'weight', 'symmetrize', 'coadd'))
        if ok and clash:
            env.check('one way of giving fitters',
                      isinstance(err, RuntimeError))
        elif not ok:
            env.check('needed settings', err is not None)
        else:
            env.check('accepted', err is None)
    elif mode in ('model', 'fitters'):
        if model == 'other':
            env.check('unknown model', isinstance(err, ValueError))
        else:
            env.check('known model', err is None)
    else:
        if on['key'] != on['images']:
            env.check('both colour settings', isinstance(err, RuntimeError))
            env.check('before anything is done', not S.mcal)
        elif on['key'] and model in ('am', 'admom', 'gauss'):
            env.check('colours need fluxes', isinstance(err, RuntimeError))
        else:
            env.check('accepted', err is None)
    if err is not None:
        return
    d = r['noshear']
    env.check('measured', d is not None and d.size == 1)
    pre = {'admom': 'am'}.get(model, model)
    env.check('columns of the fitter', pre + '_flags' in d.dtype.names
              and pre + '_g' in d.dtype.names)
    env.check('its bands', pre + '_T' in d.dtype.names)


FLAGS = ['SHEAR_RANGE_ERROR', 'EDGE_HIT', 'PSF_FAILURE', 'OBJ_FAILURE',
         'NOMOMENTS_FAILURE', 'BAD_BBOX', 'ZERO_WEIGHTS', 'NO_DATA',
         'MISSING_BAND', 'INCONSISTENT_BANDS', 'CENTROID_FAILURE',
         'DEBLEND_FAILURE']


WAVG = ['wmom', 'ksigma', 'pgauss']
JOINT = ['am', 'admom', 'gauss']


def honoured(env, first, alone=False):
    """each fitter is run with its own settings"""
    md = env.mod('metadetect.metadetect')
    ngmix = env.mod('ngmix')
    np = env.np
    dims, nband = (4, 4), 2
    S = mdet.Setup(env, dims, nband, types=['noshear'],
                   objs={'noshear': [(1., 1.)]})
    mb = S.inputs()
    seen = []

    def holes(obs):
        return sum(1 for p in pixels(obs.weight.shape)
                   if float(obs.weight[p]) == 0)

    def go(fitter, obs, *a, **kw):
        if obs.image.shape == (1, 1):
            return S.moms(float(obs.image[0, 0]) * 4096, True)
        seen.append((fitter.kind.split('_')[0], fitter, holes(obs)))
        return S.moms(9., False)

    def admom(runner, obs):
        if obs.image.shape != (1, 1):
            seen.append(('am', runner, holes(obs)))
        return {'flags': 0, 'T_flags': 0, 'T': 1.5, 'T_err': .5, 's2n': 20.,
                'e': np.array([.1, .2]), 'e_cov': np.eye(2)}

    def boot(obs, runner, psf_runner):
        seen.append(('gauss', len(obs), None))
        raise ngmix.gexceptions.BootPSFFailure('x')
    ngmix.hooks.update(fitter_go=go, runner_go=admom, bootstrap=boot)

    def metacal(mbobs, rng, kw):
        out = []
        for b in range(nband):
            o = S.sheared(mdet._code(0, 'noshear', b))
            w = o.weight.copy()
            # a hole that is not symmetric
            w[0, 3] = 0
            o.set_weight(w)
            bm = np.zeros(dims, dtype='i4')
            bm[3, 3] = 4
            o.set_bmask(bm)
            out.append(o)
        return {'noshear': mdet._mb(env, out)}
    ngmix.hooks['get_all_metacal'] = metacal

    def three(name):
        # given or not; with two fitters what differs from the default
        v = [None, True, False] if alone else [None, name[0] == 'c']
        return v[env.choose(name, len(v))]

    def one(k, models):
        c = {'model': models[env.choose('model%d' % k, len(models))],
             'weight': {'fwhm': [1.2, .9][k]}}
        c.update({n: v for n, v in (('symmetrize', three('sym%d' % k)),
                                    ('coadd', three('coadd%d' % k)
                                     if alone or models is JOINT else None))
                  if v is not None})
        if c['model'] in WAVG:
            if env.possible(env.bool('reg%d' % k)):
                c['weight']['fwhm_reg'] = .5 + k / 4
            if alone and env.possible(env.bool('smooth%d' % k)):
                c['weight']['fwhm_smooth'] = .25 + k / 4
        return c
    kinds = [WAVG, JOINT] if first == 'wavg' else [JOINT, WAVG]
    cs = [one(k, kinds[k]) for k in range(1 if alone else 2)]
    conf = mdet._conf({})
    for n in ('model', 'weight'):
        del conf[n]
    conf['meds'].update(min_box_size=4, max_box_size=4)
    conf['metacal']['types'] = ['noshear']
    if alone:
        conf.update(cs[0])
    else:
        conf['fitters'] = copy.deepcopy(cs)
    bits = [None, 3, 4][env.choose('bmask_flags', 3) if alone else 0]
    # pixels of other objects are left out, also for images by colour
    uber = env.choose('uberseg', 3) if alone and bits is None else 0
    if uber:
        conf['meds']['weight_type'] = 'uberseg'
        sep = env.mod('sxdes').hooks['run_sep']

        def run_sep(**k):
            cat, seg = sep(**k)
            seg[1, 1] = 1
            seg[1, 0] = 2
            return cat, seg
        env.mod('sxdes').hooks['run_sep'] = run_sep
    kw = {}
    if uber == 2 and first == 'wavg':
        kw = {'color_key_func': lambda f: 'c', 'color_dep_mbobs': {'c': mb}}
    if bits is not None:
        conf['bmask_flags'] = bits
    d = md.do_metadetect(conf, mb, env.rng(), **kw)['noshear']
    env.check('measured', d is not None and d.size == 1)
    if kw:
        # once for the colour, with the same settings
        pre = seen[:len(seen) // 2]
        seen = seen[len(seen) // 2:]
        env.check('alike for the colour', len(pre) == len(seen)
                  and [(x[0], x[2]) for x in pre]
                  == [(x[0], x[2]) for x in seen])
    for k, c in enumerate(cs):
        model = {'admom': 'am'}.get(c['model'], c['model'])
        mine = [x for x in seen if x[0] == model]
        if bits == 4:
            env.check('bits that are not measured', not mine)
            cols = [n for n in d.dtype.names if n.startswith(model)
                    and n.endswith('_flags') and 'obj' not in n
                    and 'psf' not in n and 'band' not in n]
            env.check('flagged', len(cols) >= 1
                      and int(d[cols[0]][0]) != 0)
            continue
        want = (4 if c.get('symmetrize', True) else 1) * (2 if uber else 1)
        if model == 'gauss':
            env.check('joint fit', [x[1] for x in mine]
                      == [1 if c.get('coadd', False) else nband])
        elif model == 'am':
            env.check('one fit of the coadd', len(mine) == 1)
            env.check('symmetrized', mine[0][2] == want)
        else:
            env.check('each band', len(mine) == nband)
            env.check('symmetrized', all(x[2] == want for x in mine))
            f = mine[0][1]
            env.check('weight function', f.fwhm == c['weight']['fwhm'])
            env.check('smoothing', f.kw.get('fwhm_smooth') == (
                c['weight'].get('fwhm_smooth') if model != 'wmom' else None))
            reg = c['weight'].get('fwhm_reg')
            pre = model + ('_reg%0.2f' % reg if reg else '')
            env.check('name', pre + '_g' in d.dtype.names)
            s = S.moms(9., False)['sums']
            T = s[4] + (s[5] * ngmix.moments.fwhm_to_T(reg) if reg else 0)
            env.check_eq('shape', d[pre + '_g'][0, 0], s[2] / T, tol=1e-6)
            env.check_eq('shape', d[pre + '_g'][0, 1], s[3] / T, tol=1e-6)


def flags(env, mode):
    """flags can be told apart"""
    pf = env.mod('metadetect.procflags')
    nf = env.mod('ngmix').flags
    np = env.np
    vals = [getattr(pf, n) for n in FLAGS]
    known = [k for k in nf.NAME_MAP if not isinstance(k, str)]
    if mode == 'values':
        v = env.bv('v', 31)
        # a value with one bit is at most one of the flags
        for f in vals:
            env.check('int32', 0 < f < 2 ** 31)
            env.check('a single bit', env.Implies(
                (v & f) != 0, (v & f) == f))
            env.check('not used by ngmix', all((f & int(k)) == 0
                                               for k in known))
        for i in range(len(vals)):
            for j in range(i):
                env.check('no flag twice', env.Not(env.And(
                    (v & vals[i]) != 0, (v & vals[j]) != 0,
                    (v & (v - 1)) == 0)))
                env.check('distinct', (vals[i] & vals[j]) == 0)
        a = np.zeros(1, dtype='i4')
        for f in vals:
            a[0] = f
            env.check('fits a column', a[0] == f)
        env.check('edge', pf.NO_ATTEMPT == nf.NO_ATTEMPT)
        return
    i = env.choose('i', len(FLAGS))
    j = env.choose('j', len(FLAGS) + len(known))
    f = vals[i]
    g = (vals + [int(k) for k in known])[j]
    names = []
    for x in sorted({f, g}):
        n = pf.NAME_MAP[x]
        env.check('named', isinstance(n, str) and len(n) > 0)
        env.check('name to flag', pf.NAME_MAP[n] == x)
        names.append(n)
    env.check('description', pf.get_procflags_str(f | g) == '|'.join(names))
    env.check('names differ', len(set(names)) == len(names))
    env.check('ngmix untouched', f not in nf.NAME_MAP)


def namer(env):
    """names of columns"""
    u = env.mod('metadetect.util')
    opts = [None, '', 'noshear', 'wmom', '1p']
    f = opts[env.choose('front', len(opts))]
    b = opts[env.choose('back', len(opts))]
    n = ['g', 'band_flux'][env.choose('name', 2)]
    want = n
    if f:
        want = f + '_' + want
    if b and b != 'noshear':
        want = want + '_' + b
    env.check('name', u.Namer(f, b)(n) == want)
    env.check('by name', u.Namer(front=f, back=b)(n) == want)
