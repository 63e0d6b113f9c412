"""sky position shearing (metadetect/shearpos.py)"""

G = {'1p': (1, 0), '1m': (-1, 0), '2p': (0, 1), '2m': (0, -1)}


def _jac(env, rect=False):
    ngmix = env.mod('ngmix')
    k = dict(dvdrow=env.real('dvdrow', -2, 2), dvdcol=env.real('dvdcol', -2, 2),
             dudrow=env.real('dudrow', -2, 2), dudcol=env.real('dudcol', -2, 2))
    jac = ngmix.Jacobian(row=env.real('row0', -100, 100),
                         col=env.real('col0', -100, 100), **k)
    det = k['dvdrow'] * k['dudcol'] - k['dvdcol'] * k['dudrow']
    env.assume(env.Or(env.le(1 / 16, det), env.le(det, -1 / 16)))
    return jac


def _setup(env, n, obs=False):
    sp = env.mod('metadetect.shearpos')
    jac = _jac(env)
    if obs:
        dims = [(3, 4), (4, 3), (2, 2)][env.choose('shape', 3)]
    else:
        dims = (env.int('nrow', 1, 4000), env.int('ncol', 1, 4000))
    step = env.real('step', 1 / 128, 1 / 2)
    rows = env.arr_real('r', n, -4000, 4000)
    cols = env.arr_real('c', n, -4000, 4000)
    return sp, jac, dims, step, rows, cols


def _call(env, sp, name, rows, cols, s, jac, dims, step, obs):
    if obs:
        ngmix = env.mod('ngmix')
        o = ngmix.Observation(env.np.zeros(dims), jacobian=jac)
        return getattr(sp, name + '_obs')(rows, cols, s, o, step=step)
    return getattr(sp, name)(rows, cols, s, jac, dims, step=step)


def matrix(env, shear, which, n=1, obs=False):
    """world displacements from the image centre are multiplied by the
    distortion of the shear (or its inverse)"""
    sp, jac, dims, step, rows, cols = _setup(env, n, obs)
    name = {'shear': 'shear_positions', 'unshear': 'unshear_positions'}[which]
    r, c = _call(env, sp, name, rows, cols, shear, jac, dims, step, obs)
    s1, s2 = G[shear]
    g1, g2 = s1 * step, s2 * step
    rc, cc = (dims[0] - 1) / env.np.float64(2), (dims[1] - 1) / env.np.float64(2)
    norm = env.np.sqrt(1 - step * step)
    sgn = 1 if which == 'shear' else -1
    env.check('lengths', r.shape == (n,) and c.shape == (n,))
    for i in range(n):
        vi, ui = jac.get_vu(rows[i], cols[i])
        vo, uo = jac.get_vu(r[i], c[i])
        vc, uc = jac.get_vu(rc, cc)
        dv, du = vi - vc, ui - uc
        env.check_eq('u', (uo - uc) * norm,
                     (1 + sgn * g1) * du + sgn * g2 * dv, tol=1e-5)
        env.check_eq('v', (vo - vc) * norm,
                     sgn * g2 * du + (1 - sgn * g1) * dv, tol=1e-5)


def roundtrip(env, shear, first, n=1, obs=False):
    sp, jac, dims, step, rows, cols = _setup(env, n, obs)
    names = ['shear_positions', 'unshear_positions']
    if first == 'unshear':
        names.reverse()
    r, c = _call(env, sp, names[0], rows, cols, shear, jac, dims, step, obs)
    r, c = _call(env, sp, names[1], r, c, shear, jac, dims, step, obs)
    env.check_eq('rows back', r, rows, tol=1e-5)
    env.check_eq('cols back', c, cols, tol=1e-5)


def centre(env, shear, which):
    sp, jac, dims, step, rows, cols = _setup(env, 1)
    rows[0] = (dims[0] - 1) / env.np.float64(2)
    cols[0] = (dims[1] - 1) / env.np.float64(2)
    r, c = _call(env, sp, which + '_positions', rows, cols, shear, jac, dims,
                 step, False)
    env.check_eq('centre row fixed', r[0], rows[0], tol=1e-6)
    env.check_eq('centre col fixed', c[0], cols[0], tol=1e-6)


def identity(env, which, obs=False):
    """types that do not shear the sky leave positions alone; others raise"""
    sp, jac, dims, step, rows, cols = _setup(env, 2, obs)
    r0, c0 = rows.copy(), cols.copy()
    for s in ('noshear', '1p_psf', '1m_psf', '2p_psf', '2m_psf'):
        r, c = _call(env, sp, which + '_positions', rows, cols, s, jac, dims,
                     step, obs)
        env.check_eq('unchanged rows ' + s, r, r0)
        env.check_eq('unchanged cols ' + s, c, c0)
    for s in ('3p', '1', '1P', '', 'p1'):
        v, e = env.attempt(_call, env, sp, which + '_positions', rows, cols,
                           s, jac, dims, step, obs)
        env.check('unknown type rejected', isinstance(e, ValueError))
    env.check_eq('inputs untouched', rows, r0)
    env.check_eq('inputs untouched', cols, c0)
