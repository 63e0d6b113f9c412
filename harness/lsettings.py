"""settings of metadetect.lsst"""
import copy

from .lcommon import L


def _same(env, label, got, want):
    """nested settings are equal"""
    if isinstance(want, dict):
        env.check(label, isinstance(got, dict)
                  and sorted(map(str, got)) == sorted(map(str, want)))
        for k in want:
            if isinstance(got, dict) and k in got:
                _same(env, label, got[k], want[k])
    elif want is None or isinstance(want, (str, bool, list, tuple)):
        env.check(label, type(got) is type(want) and got == want)
    else:
        env.check_eq(label, got, want)


DEF = {'subtract_sky': False, 'deblender': 'sdss', 'detect': {'thresh': 5.0},
       'metacal': {'reconv_type': 'fitgauss'}, 'pgauss': {'fwhm': 2.0},
       'stamp_size': 49, 'shear_bands': None}


def full(env, mode, twice=True):
    """photometry settings are completed from the defaults"""
    cf = env.mod('metadetect.lsst.configs')
    df = env.mod('metadetect.lsst.defaults')
    user, bad = {}, False
    v = {'subtract_sky': True, 'deblender': 'scarlet',
         'stamp_size': env.int('stamp', 1, 300), 'shear_bands': ['r', 'i'],
         'detect': {'thresh': env.real('thresh', -10, 100)},
         'pgauss': {'fwhm': env.real('fwhm', 0, 10)},
         'metacal': {'reconv_type': 'gauss', 'types': ['noshear']}}

    def on(name):
        return env.possible(env.bool('on_' + name))
    if mode == 'top':
        for k in sorted(v):
            if on(k):
                user[k] = v[k]
    elif mode == 'sub':
        for k in ('detect', 'pgauss', 'metacal'):
            n = env.choose('sub_' + k, 4)
            if n == 1:
                user[k] = {}
            elif n == 2:
                user[k] = v[k]
            elif n == 3:
                # something else: settings of metacal are not restricted
                user[k] = {'other': 3}
                bad = bad or k != 'metacal'
        if on('stamp_size'):
            user['stamp_size'] = v['stamp_size']
    else:
        # names that are not settings
        n = ['thresh', 'weight', 'model', 'Detect', 'detect ', 'mfrac_fwhm',
             'fwhm', ''][env.choose('name', 8)]
        if on('stamp_size'):
            user['stamp_size'] = v['stamp_size']
        user[n] = 3
        if on('pgauss'):
            user['pgauss'] = v['pgauss']
        bad = True
    given = {k: dict(x) if isinstance(x, dict) else x for k, x in user.items()}
    arg = user
    if not user and on('none'):
        arg = None
    try:
        c = cf.get_config(arg)
        err = False
    except ValueError:
        err = True
    env.check('rejected iff it is not a setting', err == bad)
    _same(env, 'settings sent are unchanged', user, given)
    _same(env, 'defaults are unchanged', df.DEFAULT_MDET_CONFIG, DEF)
    if err:
        # nothing is left behind
        _same(env, 'defaults afterwards', cf.get_config(), DEF)
        return
    want = copy.deepcopy(DEF)
    for k, x in given.items():
        if isinstance(x, dict):
            want[k].update(x)
        else:
            want[k] = x
    _same(env, 'settings', c, want)
    # what is done to the result does not matter elsewhere
    c['detect']['thresh'] = -1.0
    c['pgauss']['fwhm'] = -1.0
    c['metacal']['types'] = 'x'
    c['stamp_size'] = -1
    _same(env, 'defaults are unchanged', df.DEFAULT_MDET_CONFIG, DEF)
    _same(env, 'defaults afterwards', cf.get_config(), DEF)
    if isinstance(arg, dict):
        for k in ('detect', 'pgauss', 'metacal'):
            if k in arg:
                _same(env, 'settings sent are unchanged', user[k], given[k])


MDEF = {'subtract_sky': False, 'pgauss': {'fwhm': 2.0}, 'deblender': 'sdss',
        'metacal': {'types': ['noshear', '1p', '1m'],
                    'reconv_type': 'fitgauss'}, 'stamp_size': 49,
        'shear_bands': None}


def override(env, mode):
    """nested settings in a dict override those of a config object"""
    l = L(env)  # noqa
    ut = env.mod('metadetect.lsst.util')
    md = env.mod('metadetect.lsst.metadetect')
    user = {}
    bad = False

    def on(name):
        return env.possible(env.bool('on_' + name))
    if mode == 'values':
        if on('stamp_size'):
            user['stamp_size'] = 10 + env.choose('stamp', 3)
        if on('sky'):
            user['subtract_sky'] = True
        if on('pgauss'):
            user['pgauss'] = {'fwhm': env.real('fwhm', 0, 10)}
        if on('detect'):
            user['detect'] = {
                ['thresh', 'thresholdValue'][env.choose('which', 2)]:
                env.real('thresh', 0, 10)}
            if on('minpix'):
                user['detect']['minPixels'] = 3
        if on('metacal'):
            user['metacal'] = {}
            if on('types'):
                user['metacal']['types'] = ['1p', '2m']
            if on('reconv'):
                user['metacal']['reconv_type'] = ['gauss', None][
                    env.choose('which_reconv', 2)]
        if on('bands'):
            user['shear_bands'] = [['r'], None][env.choose('which_bands', 2)]
        if on('deblender'):
            user['deblender'] = 'scarlet'
    else:
        n = env.choose('bad', 9)
        user = [{'thresh': 3}, {'detect': {'fwhm': 3.0}},
                {'pgauss': {'sigma': 1.0}}, {'metacal': {'psf': 'gauss'}},
                {'metacal': {'reconv_type': 'other'}},
                {'deblender': 'other'}, {'metacal': {'types': ['3p']}},
                {'stamp_size': 'large'}, {'weight': {'fwhm': 1.0}}][n]
        bad = True
        if on('stamp_size'):
            user.setdefault('stamp_size', 11)
    given = copy.deepcopy(user) if mode != 'values' else {
        k: dict(x) if isinstance(x, dict) else x for k, x in user.items()}
    c = md.MetadetectConfig()
    other = md.MetadetectConfig()
    try:
        ut.override_config(c, user)
        c.freeze()
        c.validate()
        err = None
    except (AttributeError, ValueError) as e:
        err = e
    env.check('rejected iff it is not a setting', (err is not None) == bad)
    _same(env, 'settings sent are unchanged', user, given)
    d = other.toDict()
    det = d.pop('detect')
    env.check('detection threshold of others', det['thresholdValue'] == 5.0)
    _same(env, 'others have the defaults', d, MDEF)
    if err is not None:
        return
    want = copy.deepcopy(MDEF)
    wdet = dict(det)
    for k, x in given.items():
        if k == 'detect':
            for kk, y in x.items():
                wdet['thresholdValue' if kk == 'thresh' else kk] = y
        elif isinstance(x, dict):
            want[k].update(x)
        else:
            want[k] = x
    d = c.toDict()
    gdet = d.pop('detect')
    _same(env, 'settings', d, want)
    _same(env, 'detection settings', gdet, wdet)
