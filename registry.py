"""what each property is decided by: (harness module, function, bounds)"""
import copy

COMMON_ASSUMPTIONS = [
    'machine floats are treated as exact reals (nan and infinities are '
    'modelled where a harness makes them possible); replays on the real code '
    'allow for rounding',
    'ngmix, sxdes, meds and the LSST stack are not installed: stand-ins in '
    'stubs/ with the documented semantics are used, identical in the '
    'encoding and in the replay',
    'numpy, numba kernels, galsim.Shear, esutil and scipy are modelled in the '
    'encoding and real in the replay',
]

SH = ('1p', '1m', '2p', '2m')
PROPS = {}


def prop(pid, bounds, assumptions=()):
    def deco(f):
        PROPS[pid] = {'jobs': f, 'bounds': bounds,
                      'assumptions': list(assumptions)}
        return f
    return deco


def _t(tier):
    return tier == 'thorough'


def _seq(mod, func, *cfgs, **kw):
    """one after the other, in the same process"""
    return ('seq', 'run', dict(parts=[[mod, func, c] for c in cfgs], **kw))


def _also(pid, *jobs):
    """more jobs for a property"""
    f = PROPS[pid]['jobs']
    m = max(len(c['parts']) for _, _, c in jobs)
    PROPS[pid]['bounds'] += '; up to %d runs in a row in one process' % m
    PROPS[pid]['jobs'] = lambda tier: f(tier) + [
        (m, n, copy.deepcopy(c)) for m, n, c in jobs]


@prop('C01', 'any invertible affine sky transform with entries in [-2,2] and '
      '|det|>=1/16, any image size up to 4000x4000, any step in [1/128,1/2], '
      '1-2 positions')
def c01(tier):
    js = []
    for s in SH:
        for w in ('shear', 'unshear'):
            js.append(('shearpos', 'matrix', dict(shear=s, which=w, n=2)))
            js.append(('shearpos', 'roundtrip', dict(shear=s, first=w)))
            js.append(('shearpos', 'centre', dict(shear=s, which=w)))
            js.append(('shearpos', 'matrix', dict(shear=s, which=w, obs=True)))
            if _t(tier):
                js.append(('shearpos', 'roundtrip',
                           dict(shear=s, first=w, n=2, obs=True)))
                js.append(('shearpos', 'roundtrip',
                           dict(shear=s, first=w, n=2)))
    for w in ('shear', 'unshear'):
        for o in (False, True):
            js.append(('shearpos', 'identity', dict(which=w, obs=o)))
    return js


@prop('C02', 'images up to 3x3 (quick) / 4x4 (thorough), up to 2 holes with '
      'any real centre in [-20,20]^2 and radius in [0,20] pixels; mask bits '
      '1, 2**13, 2**30; apodization scale 1/2, 1, 2 or any in [1/4,4]')
def c02(tier):
    js = [
        ('masking', 'bmask', dict(dims=(3, 3), nholes=2, sym=True)),
        ('masking', 'bmask', dict(dims=(2, 4), nholes=2, sym=False)),
        ('masking', 'bmask', dict(dims=(4, 1), nholes=1, sym=False)),
        ('masking', 'bmask', dict(dims=(2, 3), nholes=0, sym=False)),
        ('masking', 'apmask', dict(dims=(3, 3), nholes=1, sym=True, h=1)),
        ('masking', 'apmask', dict(dims=(2, 2), nholes=2, sym=True, h=1)),
        ('masking', 'apmask', dict(dims=(2, 3), nholes=2, sym=False, h=None)),
        ('masking', 'apmask', dict(dims=(3, 2), nholes=1, sym=False, h=.5)),
        ('masking', 'apcentre', dict(dims=(3, 2), h=1)),
        ('masking', 'apcentre', dict(dims=(1, 3), h=.5)),
    ]
    if _t(tier):
        js += [
            ('masking', 'bmask', dict(dims=(4, 4), nholes=2, sym=True)),
            ('masking', 'bmask', dict(dims=(2, 2), nholes=3, sym=True)),
            ('masking', 'bmask', dict(dims=(5, 4), nholes=1, sym=False)),
            ('masking', 'apmask', dict(dims=(3, 3), nholes=2, sym=True, h=1)),
            ('masking', 'apmask', dict(dims=(4, 4), nholes=1, sym=True, h=2)),
            ('masking', 'apcentre', dict(dims=(3, 4), h=2)),
        ]
    return js


@prop('C03', 'images 1x1 to 5x4, up to 2 bands x 2 epochs, arbitrary pixel '
      'values, weights, bits; edge apodization scales 0.1..2 (concrete), '
      'holes as in the hole-mask property')
def c03(tier):
    js = []
    for dims, h in (((3, 4), .5), ((4, 3), .25), ((5, 4), .1), ((2, 3), 1),
                    ((1, 1), .5), ((5, 5), .3)):
        js.append(('masking', 'edge_corr', dict(dims=dims, h=h)))
    js.append(('masking', 'edge_corr',
               dict(dims=(3, 4), h=.1, nband=2, nepoch=2, mfrac=False)))
    js += [
        ('masking', 'fg_apodize', dict(dims=(2, 2), expand=1)),
        ('masking', 'fg_apodize', dict(dims=(2, 2), nband=2, sym=True)),
        ('masking', 'fg_apodize', dict(dims=(1, 2), nepoch=2, nband=2,
                                       mfrac=False)),
        ('masking', 'fg_apodize', dict(dims=(3, 3), geom=(1, 2, 1.5, .25),
                                       nband=2, mfrac=False)),
        ('masking', 'fg_apodize', dict(dims=(3, 3), geom=(0, 1, 2.1, .25),
                                       sym=True, expand=1)),
        ('masking', 'fg_apodize', dict(dims=(2, 3), geom=(0, 5, 1.5, 1))),
        ('masking', 'fg_apodize', dict(dims=(2, 3), geom=(1, 1, 20, 1))),
        ('masking', 'fg_interp', dict(dims=(2, 3), expand=1)),
        ('masking', 'fg_interp', dict(dims=(2, 2), sym=True, nband=2)),
        ('masking', 'fg_interp', dict(dims=(2, 2), nholes=2, nepoch=2,
                                      mfrac=False)),
        ('masking', 'fg_interp', dict(dims=(1, 3), noise=True, iso_buff=0)),
        ('masking', 'fg_interp', dict(dims=(2, 3), noise=True, iso_buff=1,
                                      wmin=.125)),
        ('masking', 'fg_interp', dict(dims=(1, 4), noise=True, iso_buff=1,
                                      nband=2)),
    ]
    if _t(tier):
        js += [
            ('masking', 'fg_interp', dict(dims=(3, 3), noise=True, wmin=.125)),
            ('masking', 'fg_interp', dict(dims=(3, 3), expand=1, sym=True)),
            ('masking', 'fg_interp', dict(dims=(2, 2), nholes=2, sym=True,
                                          nband=2, nepoch=2)),
            ('masking', 'fg_apodize', dict(dims=(3, 3), expand=1, sym=True,
                                           nband=2)),
            ('masking', 'fg_apodize', dict(dims=(2, 3), expand=1, nepoch=2)),
            ('masking', 'edge_corr', dict(dims=(16, 15), h=1)),
        ]
    return js


@prop('C04', 'every mask of images up to 3x3 (quick) / 3x4 (thorough), '
      'arbitrary good values, nan in the bad pixels; buffers 0..4, isolation '
      'buffers 0..2, noise weight in [1/64,64]')
def c04(tier):
    js = [
        ('masking', 'interp', dict(dims=(3, 3))),
        ('masking', 'interp', dict(dims=(3, 3), fill=True)),
        ('masking', 'interp', dict(dims=(2, 4), buff=1, maxfrac=1.0)),
        ('masking', 'interp', dict(dims=(1, 6), buff=1, iso_buff=2,
                                   fill=True)),
        ('masking', 'interp', dict(dims=(4, 2), buff=2, maxfrac=0.5)),
        ('masking', 'interp', dict(dims=(2, 3), buff=1, iso_buff=0,
                                   fill=True, maxfrac=1.0)),
        ('masking', 'interp', dict(dims=(7, 1), buff=3)),
    ]
    if _t(tier):
        js += [
            ('masking', 'interp', dict(dims=(3, 4), buff=1)),
            ('masking', 'interp', dict(dims=(2, 5), fill=True, buff=2)),
            ('masking', 'interp', dict(dims=(9, 1), buff=4, iso_buff=1,
                                       fill=True, maxfrac=1.0)),
        ]
    return js


@prop('C05', 'images up to 3x4, stamps of 2..6 pixels, any real position on '
      'the image and up to 3 pixels off it, arbitrary planes and WCS, up to 2 '
      'objects x 2 bands')
def c05(tier):
    js = [('detect', 'badtype', {})]
    for w in ('image', 'weight', 'seg', 'bmask', 'noise'):
        js.append(('detect', 'cutout', dict(dims=(3, 4), box=2, what=w)))
        js.append(('detect', 'cutout', dict(dims=(2, 3), box=4, what=w,
                                            pad=1)))
    js += [
        ('detect', 'cutout', dict(dims=(3, 4), box=3, what='image', pad=3)),
        ('detect', 'cutout', dict(dims=(3, 2), box=6, what='bmask')),
        ('detect', 'stamps', dict(dims=(2, 3), boxes=[2, 4], nband=1)),
        ('detect', 'stamps', dict(dims=(2, 3), boxes=[3], nband=2)),
    ]
    for bt in ('iso_radius', 'sigma_size'):
        js.append(('detect', 'detcat', dict(
            dims=(3, 4), rec=True, box_type=bt, lo=2, hi=6, rad_min=.5, rad_fac=.5,
            box_padding=1, sigma_fac=.5)))
    if _t(tier):
        for w in ('image', 'weight', 'seg', 'bmask', 'noise'):
            js.append(('detect', 'cutout', dict(dims=(5, 4), box=4, what=w,
                                                pad=4)))
        js.append(('detect', 'stamps', dict(dims=(3, 4), boxes=[2, 4],
                                            nband=2)))
        js.append(('detect', 'stamps', dict(dims=(3, 2), boxes=[2, 3, 4])))
    return js


@prop('C06', 'images up to 2x3, 1-3 bands, arbitrary pixels, bits and '
      'weights (including zero weights), with or without bit mask')
def c06(tier):
    js = [
        ('detect', 'detin', dict(dims=(2, 2), nband=2, zero=[(0, 0, 1)])),
        ('detect', 'detin', dict(dims=(1, 3), nband=3, sx=False,
                                 bm=[True, False, True], nodet=2**29 + 4,
                                 zero=[(0, 0, 1), (2, 0, 0)])),
        ('detect', 'detin', dict(dims=(1, 2), nband=1, zero=None, nodet=0)),
        ('detect', 'detin', dict(dims=(1, 2), nband=2, zero=None, nodet=1)),
        ('detect', 'detin', dict(dims=(3, 1), nband=1)),
    ]
    if _t(tier):
        js += [
            ('detect', 'detin', dict(
                dims=(2, 3), nband=3, sx=False, bm=[True, False, True],
                nodet=2**29 + 4, zero=[(0, 0, 1), (1, 0, 0), (1, 1, 1)])),
            ('detect', 'detin', dict(dims=(2, 2), nband=2, zero=None,
                                     nodet=3)),
            ('detect', 'detin', dict(dims=(3, 2), nband=2)),
        ]
    return js


@prop('C07', 'any isophotal radius up to 2000 pixels / half light radius up '
      'to 300 and extents up to 400, minimum and maximum sizes from the '
      'registered list; sizes within 1/1024 of an integer are left out')
def c07(tier):
    js = [('detect', 'badbox', {})]
    iso = [(32, 256, 4, 2, 2), (2, 6144, 1, 1.5, 0), (33, 250, 10, 3, 4)]
    sig = [(32, 256, 5), (2, 6144, 2.5), (40, 100, 1)]
    if _t(tier):
        iso += [(48, 48, 1, 1, 1), (5, 5000, .5, 2.5, 7)]
        sig += [(48, 48, 5), (3, 1000, 4)]
    for lo, hi, rm, rf, pad in iso:
        js.append(('detect', 'detcat', dict(
            dims=(1, 1), box_type='iso_radius', lo=lo, hi=hi, rad_min=rm,
            rad_fac=rf, box_padding=pad)))
    for lo, hi, f in sig:
        js.append(('detect', 'detcat', dict(
            dims=(1, 1), box_type='sigma_size', lo=lo, hi=hi, sigma_fac=f)))
    js.append(('detect', 'detcat', dict(
        dims=(1, 2), box_type='sigma_size', lo=32, hi=96, sigma_fac=5, n=2)))
    return js


@prop('C08', 'images of 1 pixel in up to 3 bands, any weights (zero '
      'included), any moment sums with positive flux and size normalisation '
      'where stated by the job; any subset of up to 2 shear bands in any '
      'order; up to 3x3 pixels for what is fit; momentum regularisation '
      'lengths 0.8 and 1.2',
      ['the pre-seeing and gaussian-weighted moment fitters of ngmix are '
       'stand-ins returning arbitrary moment sums'])
def c08(tier):
    J = []

    def w(*a, **k):
        J.append(('fitting', 'wavg', dict(nband=a[0], shear=list(a[1]), **k)))
    w(2, [0, 1], what=('e', 'T', 'psf'))
    w(2, [1], kind='pgauss', what=('T', 'flags', 's2n', 'e', 'err'), sym='C')
    w(2, [1, 0], what=('T', 'flags', 's2n', 'e', 'err', 'psf', 'ratio'),
      sym='WN')
    w(3, [0, 2], kind='ksigma', what=('psf',), sym='P')
    w(1, [0], what=('T', 's2n', 'e', 'err'), sym='S', norm='no', sb='none')
    w(1, [0], what=('psf', 'flags'), sym='PN', kind='pgauss')
    w(2, [0, 1], what=('T', 'flags', 's2n'), sym='S', reg=0.8)
    w(2, [0, 1], what=('e', 'err'), sym='S', reg=0.8)
    w(1, [0], what=('e', 'err', 'flags'), sym='S', reg=0.8, kind='ksigma')
    w(2, [0, 1], what=('T', 'e', 'err', 'flags'), sym='C', reg=1.2,
      kind='pgauss')
    w(2, [0, 1], what=('e', 'T'), sym='W', stamp=(2, [(0, 0)], []))
    w(2, [0, 1], what=('e', 'T'), sym='W',
      stamp=(3, [(0, 1), (0, 2)], [(0, 0), (1, 2)]), symm=True)
    w(1, [0], what=('e', 'T'), sym='W', stamp=(2, [(0, 1)]), symm=True)
    w(1, [0], what=('e', 'T'), sym='W',
      stamp=(2, [(0, 0), (0, 1), (1, 0), (1, 1)]), symm=False)
    if _t(tier):
        w(3, [2, 1], what=('T', 'flags', 'e'), sym='F', flags=5)
        w(2, [0, 1], what=('T', 'e', 'err', 'flags'), sym='W', reg=1.2,
          kind='pgauss')
        w(2, [0, 1], what=('e', 'T'), sym='W',
          stamp=(3, [(0, 1)], [(0, 0), (1, 2)]), symm=True)
    return J


@prop('C09', 'images of 1-2 pixels in up to 3 bands, any weights, bits and '
      'results of the underlying fitter; one missing, repeated, failing or '
      'unphysical band at a time and all pairs of an edge hit with it',
      ['what the fitters of ngmix return is arbitrary (stand-ins)'])
def c09(tier):
    J = []

    def w(*a, **k):
        J.append(('fitting', 'wavg', dict(nband=a[0], shear=list(a[1]), **k)))

    def g(*a, **k):
        J.append(('fitting', 'gauss', dict(nband=a[0], shear=list(a[1]),
                                           **k)))

    def am(*a, **k):
        J.append(('fitting', 'admom', dict(nband=a[0], shear=list(a[1]),
                                           **k)))
    w(1, [0], what=('flags',), sym='CF', norm='no', sb='none')
    w(3, [0, 2], kind='ksigma', what=('psf', 'flags'), sym='Q', norm='nan')
    w(1, [0], what=('flags', 'e', 'T'), sym='S', norm='no', reg=0.8)
    w(2, [1], what=('flags',), sym='CF', norm='no', reg=1.2, kind='pgauss')
    w(3, [2, 1], what=('T', 'flags', 'e'), sym='F', flags=0)
    w(2, [0], what=('T', 'e'), fault={0: 'w', 1: 'w'}, flags=4, sym='')
    w(2, [0, 1], what=('e', 'T'), fault={1: 'missing'})
    w(2, [0], what=('e', 'T'), fault={1: 'missing'})
    w(2, [0], what=('e', 'T'), fault={1: 'nomom'})
    w(2, [0], what=('e', 'T'), fault={0: 'nopsfmom'})
    w(2, [0], what=('e', 'T'), fault={0: 'noflux'}, flags=0)
    w(1, [0], what=('e', 'T'), fault={0: 'w'}, flags=4)
    w(1, [0], what=('e', 'T', 'flags'), fault={0: 'w'}, flags=6, sym='')
    w(2, [1], what=('T', 'flags'), fault={1: 'w'}, flags=3, sym='')
    g(2, [0], fault={0: 'w', 1: 'w'})
    g(2, [0], fault={0: 'w'}, flags=5)
    g(2, [0, 1], fault={1: 'missing'})
    g(2, [0], fault={1: 'missing'})
    g(2, [0, 1], fault={1: 'two'}, coadd=True)
    g(2, [0], fault={0: 'two'})
    g(2, [0, 2])
    g(2, [0, 1], raises='psf')
    g(2, [0, 1], raises='flux', coadd=True)
    g(2, [0, 1], raises='other')
    am(2, [0], fault={0: 'w', 1: 'w'})
    am(2, [0], fault={0: 'w'}, flags=5)
    am(2, [0, 1], fault={1: 'missing'})
    am(2, [0, 1], fault={1: 'two'})
    am(2, [0], fault={0: 'two'})
    am(2, [0, 2])
    am(2, [0, 1], raises='p')
    am(2, [0, 1], raises='o')
    if _t(tier):
        w(3, [2, 1], what=('T', 'flags', 'e'), sym='F', flags=5)
        g(3, [0, 2], fault={0: 'w', 1: 'w', 2: 'w'})
        g(2, [1], fault={0: 'w', 1: 'w'}, dims=(1, 2))
        am(3, [0, 2], fault={0: 'w', 1: 'w', 2: 'w'})
        am(2, [1], fault={0: 'w', 1: 'w'}, dims=(1, 2))
    return J


@prop('C10', 'square stamps of 1 to 4 pixels (quick) / 5 (thorough): all '
      'patterns of zero weight up to 2x2 and chosen ones above, arbitrary '
      'positive weights')
def c10(tier):
    z = [dict(n=1), dict(n=2), dict(n=3, zero=[(0, 1)]),
         dict(n=3, zero=[]), dict(n=4, zero=[(0, 1), (3, 2), (1, 1)]),
         dict(n=3, zero=[(1, 1)], neg=True), dict(n=4, zero=[(0, 3)]),
         dict(n=4, zero=[(1, 2), (2, 3)], neg=True),
         dict(n=2, izw=True), dict(n=1, izw=True)]
    if _t(tier):
        z += [dict(n=3), dict(n=5, zero=[(0, 1), (2, 2), (4, 3)]),
              dict(n=5, zero=[(1, 0)], neg=True)]
    return [('fitting', 'symm', k) for k in z]


@prop('C11', 'images up to 2x2, 1-3 bands, up to 3 coadded, arbitrary planes '
      'and positive weights with chosen pixels of zero weight, with and '
      'without the optional planes')
def c11(tier):
    z = [dict(nband=1, shear=[0]), dict(nband=2, shear=[0, 1]),
         dict(nband=3, shear=[2, 0]), dict(nband=2, shear=[1], dims=(2, 2)),
         dict(nband=2, shear=[0, 1], sb='none', opt='nb'),
         dict(nband=2, shear=[0, 1], zero=[[(0, 0)], [(0, 1)]]),
         dict(nband=2, shear=[0, 1], zero=[[(0, 0)], [(0, 0)]], opt='mo'),
         dict(nband=2, shear=[0, 1], dims=(2, 2),
              zero=[[(0, 0), (1, 1)], []], wsym=False),
         dict(nband=2, shear=[0, 1], zero=[[(0, 0), (0, 1)], []]),
         dict(nband=2, shear=[0, 1], opt=''), dict(nband=2, shear=[0, 2]),
         dict(nband=3, shear=[0, 1, 2], wsym=False)]
    for k in ('shape', 'jac', 'imjac', 'psfjac', 'psfcen', 'psfshape', 'nopsf',
              'noise', 'mfrac', 'bmask', 'ormask'):
        z.append(dict(nband=2, shear=[0, 1], diff=[1, k]))
    z.append(dict(nband=2, shear=[0, 1], diff=[0, 'noise']))
    if _t(tier):
        z += [dict(nband=2, shear=[0, 1], dims=(2, 2)),
              dict(nband=3, shear=[0, 1, 2], dims=(1, 1)),
              dict(nband=2, shear=[1, 0], dims=(2, 2),
                   zero=[[(0, 0), (1, 1)], [(0, 1)]]),
              dict(nband=3, shear=[0, 2], diff=[2, 'jac'])]
    return [('fitting', 'coadd', k) for k in z]


@prop('C12', 'images of 1-4 pixels in up to 3 bands, arbitrary weights, any '
      'result of the underlying fitter and psf fits', [
          'the ngmix fitters and runners are stand-ins with arbitrary '
          'results; that their fits are right is not claimed'])
def c12(tier):
    g = [dict(nband=2, shear=[0, 1]), dict(nband=2, shear=[1, 0], coadd=True),
         dict(nband=1, shear=[0], sb='none'),
         dict(nband=3, shear=[2, 0], psfkey='e'),
         dict(nband=2, shear=[1], psfkey='e', coadd=True),
         dict(nband=2, shear=[0, 1], dims=(1, 2), zero=[[(0, 0)], []]),
         dict(nband=3, shear=[2, 0], lst=True),
         dict(nband=2, shear=[1], coadd=True, lst=True),
         dict(nband=2, shear=[0, 1], sb='none', lst=True)]
    a = [dict(nband=2, shear=[0, 1]), dict(nband=1, shear=[0], sb='none'),
         dict(nband=3, shear=[2, 0]),
         dict(nband=2, shear=[0, 1], dims=(2, 2), zero=[[(0, 1)], []]),
         dict(nband=2, shear=[0, 1], dims=(2, 2), symmetrize=False),
         dict(nband=2, shear=[1], dims=(2, 2), zero=[[], [(0, 1)]]),
         dict(nband=1, shear=[0], dims=(2, 2), zero=[[(1, 1)]]),
         dict(nband=2, shear=[1], lst='am'),
         dict(nband=2, shear=[0, 1], dims=(2, 2), symmetrize=False,
              lst='admom')]
    if _t(tier):
        g += [dict(nband=3, shear=[1, 0, 2]),
              dict(nband=2, shear=[0, 1], dims=(2, 2))]
        a += [dict(nband=3, shear=[1, 0, 2]),
              dict(nband=2, shear=[1], dims=(3, 3), zero=[[], [(0, 1)]])]
    return [('fitting', 'gauss', k) for k in g] + [
        ('fitting', 'admom', k) for k in a]


R = 'mdet', 'rows'
N1 = dict(types=['noshear'])
AM = [{'model': 'wmom', 'weight': {'fwhm': 1.2}},
      {'model': 'pgauss', 'weight': {'fwhm': 2.0, 'fwhm_reg': .75}},
      {'model': 'am'}]
PIPE = ['metacal, the detection and the fits are stand-ins with results '
        'chosen by the check; the code in between is the real one']


def _box(n):
    return {'meds': {'box_type': 'iso_radius', 'rad_min': 1, 'rad_fac': 1,
                     'box_padding': 0, 'min_box_size': n, 'max_box_size': n}}


def _rows(cfgs, only):
    out = []
    for c in cfgs:
        c.setdefault('types', ['noshear'])
        c.setdefault('ndet', {'noshear': 1})
        out.append(R + (dict(c, only=only),))
    return out


@prop('C13', 'images up to 4x5, up to 3 bands, 5 image types, up to 3 '
      'detections each (also none), up to 3 combinations of bands in any '
      'order, arbitrary positions of one of the detections', PIPE)
def c13(tier):
    z = [dict(dims=(3, 3), nband=1, ndet={'noshear': 1, '1p': 2},
              types=['noshear', '1p']),
         dict(dims=(4, 4), nband=2, combs=[[0], [0, 1]], dets='shear_bands',
              ndet={'noshear': 2, '1p': 1, '1m': 1, '2p': 0, '2m': 2},
              types=None, wsym=True),
         dict(dims=(4, 4), nband=3, ndet={'noshear': 1, '2m': 1},
              combs=[[2, 0], [1]], dets=[[0, 1], [2]],
              types=['noshear', '2m'], step=.25, psfkey='g'),
         dict(dims=(3, 3), nband=2, fitters=AM),
         dict(dims=(3, 3), nband=1, ndet={'1m': 1}, types=['noshear', '1m'],
              sym=[('1m', 0)], step=.25),
         dict(dims=(3, 4), nband=1, ndet={'2p': 1}, types=['noshear', '2p'],
              sym=[('2p', 0)]),
         dict(dims=(4, 4), nband=3, anyd=1),
         dict(dims=(4, 4), nband=3, anys=1, dets=[[0, 2]]),
         dict(dims=(4, 4), nband=2, anys=2, dets='shear_bands')]
    if _t(tier):
        z += [dict(dims=(4, 4), nband=2, anys=2, anyd=2),
              dict(dims=(4, 4), nband=3, anys=1, anyd=1,
                   ndet={'noshear': 2}),
              dict(dims=(4, 5), nband=3, types=None, fitters=AM,
                   ndet={'noshear': 3, '1p': 2, '1m': 1, '2p': 3, '2m': 0},
                   combs=[[0, 1, 2], [1], [2, 1]], wsym=True),
              dict(dims=(5, 5), nband=1, ndet={'1p': 2}, types=['1p'],
                   sym=[('1p', 0)], step=.5),
              dict(dims=(5, 5), nband=1, ndet={'2m': 1}, types=['2m'],
                   sym=[('2m', 0)], lim=(1, 1), conf=_box(8))]
    return _rows(z, 'rows')


@prop('C14', 'images up to 5x5, every pattern of 30 mask bits, 1-2 bands, any '
      'position of a detection in the image or up to 2 pixels outside, '
      'regions of 1..3 pixels', PIPE + [
          'positions within 1e-3 of half way between two pixels are left out'])
def c14(tier):
    s = [('noshear', 0)]
    z = [dict(dims=(3, 3), nband=2, planes='b', sym=s),
         dict(dims=(3, 3), nband=2, planes='bo', sym=s, lim=(1, 1),
              conf=_box(8)),
         dict(dims=(3, 3), nband=1, ndet={'1m': 1}, planes='b', step=.25,
              types=['noshear', '1m'], sym=[('1m', 0)]),
         dict(dims=(4, 4), nband=1, planes='b', sym=s, region=2),
         dict(dims=(4, 5), nband=1, planes='o', sym=s, region=2, oregion=3),
         dict(dims=(5, 4), nband=1, planes='bo', sym=s, region=3, oregion=1),
         dict(dims=(3, 3), nband=2, combs=[[0], [1], [0, 1]], planes='bo',
              ndet={'noshear': 1, '1p': 1}, types=['noshear', '1p'], step=.25),
         dict(dims=(4, 4), nband=2, planes='b', region=1)]
    if _t(tier):
        z += [dict(dims=(4, 4), nband=2, planes='bo', sym=s, lim=(2, 2),
                   conf=_box(12)),
              dict(dims=(5, 5), nband=1, planes='bo', sym=s, region=2,
                   oregion=3),
              dict(dims=(4, 4), nband=1, ndet={'2p': 1}, planes='bo',
                   types=['2p'], sym=[('2p', 0)], region=2, step=.25)]
    return _rows(z, 'mask')


@prop('C15', 'images up to 4x4, arbitrary masked fractions and (for whether '
      'there are data) weights, up to 3 bands, listed positions, stamps of '
      '0..4 pixels and apertures of 0.25..2', PIPE + [
          'the gaussian of ngmix is a stand-in: a rational function that '
          'falls with the same distance and size'])
def c15(tier):
    m = [dict(dims=(3, 3), pos=[[1., 1.]], boxes=[2], fwhm=None),
         dict(dims=(3, 4), pos=[[1.25, 1.5], [2., 0.], [0.25, 3.5]],
              boxes=[2, 4, 4], fwhm=.5),
         dict(dims=(3, 3), pos=[[1., 1.], [2.25, 0.]], boxes=[1, 1], fwhm=1.),
         dict(dims=(3, 3), pos=[[1., 1.5], [2., 0.]], boxes=[0, 2], fwhm=1.,
              wsym=True),
         dict(dims=(4, 4), pos=[[1., 1.5], [3.5, 3.]], boxes=[4, 2],
              fwhm=.25),
         dict(dims=(4, 4), pos=[[1., 1.], [3., 3.]], boxes=[2, 2], fwhm=.5,
              zero=[[3, 3]])]
    z = [dict(dims=(3, 3), nband=2),
         dict(dims=(3, 3), nband=2, planes='m'),
         dict(dims=(4, 4), nband=2, ndet={'noshear': 1, '1p': 1},
              combs=[[1], [0, 1]], types=['noshear', '1p'], planes='m',
              step=.25),
         dict(dims=(4, 4), nband=2, planes='m', conf={'mfrac_fwhm': .5},
              wsym=True),
         dict(dims=(3, 4), nband=1, ndet={'noshear': 2}, planes='m', fitters=[
             {'model': 'pgauss', 'weight': {'fwhm': 2.0}},
             {'model': 'wmom', 'weight': {'fwhm': 1.2}}]),
         dict(dims=(3, 4), nband=1, ndet={'noshear': 2}, planes='m', fitters=[
             {'model': 'am'}, {'model': 'wmom', 'weight': {'fwhm': 2.0}}]),
         dict(dims=(3, 3), nband=2, planes='m', wsym='vary'),
         dict(dims=(3, 3), nband=3, combs=[[0, 1, 2], [2, 1]], planes='m',
              wsym='vary')]
    if _t(tier):
        m += [dict(dims=(6, 6), pos=[[2.5, 2.25], [0., 5.]], boxes=[6, 4],
                   fwhm=.75, wsym=True)]
        z += [dict(dims=(3, 3), nband=2, planes='m', sym=[('noshear', 0)],
                   wsym=True)]
    return [('mdet', 'mfrac', c) for c in m] + _rows(z, 'mfrac')


@prop('C16', 'up to 3 bands, any psf shapes and sizes, any positive weight of '
      'each band, and images with varying and zero weights', PIPE)
def c16(tier):
    z = [dict(dims=(3, 3), nband=2, wsym=True),
         dict(dims=(3, 3), nband=3, wsym=True, psfkey='g',
              combs=[[0, 1, 2], [1], [2, 0]]),
         dict(dims=(3, 3), nband=2, wsym='vary', combs=[[0], [1, 0]]),
         dict(dims=(3, 3), nband=2, psf_fail=[(0, 1)], wsym=True),
         dict(dims=(3, 3), nband=2, psf_fail=[(0, 0)], combs=[[0], [1]],
              fitters=AM)]
    if _t(tier):
        z += [dict(dims=(4, 4), nband=4, wsym=True, psfkey='g',
                   combs=[[0, 1, 2, 3], [3], [2, 0, 1]])]
    return _rows(z, 'psf')


@prop('C17', 'up to 3 fitters, each without results or with 0-2 objects '
      '(3 in the thorough tier), any values')
def c17(tier):
    z = [[2, 2], [1, 1, 1], [2], [None], [None, None], [0, 0], [0, None],
         [None, 0, None], [2, None], [None, 1], [2, 1], [1, 1, 2], [0, 1]]
    if _t(tier):
        z += [[3, 3], [2, 2, 2], [3, 2], [2, 2, None]]
    return [('misc', 'combine', dict(sizes=s)) for s in z]


@prop('C18', 'up to 3 objects in 2 image types, every assignment of up to 3 '
      'colours (or none) to the objects, 1-2 bands, any weights', PIPE)
def c18(tier):
    z = [dict(dims=(4, 4), nband=2, ndet={'noshear': 2, '1p': 1}, nkey=1),
         dict(dims=(4, 4), nband=1, ndet={'noshear': 2}, nkey=2,
              types=['noshear']),
         dict(dims=(4, 4), nband=2, ndet={'noshear': 1, '1p': 1}, nkey=1,
              same=True, combs=[[0], [0, 1]]),
         dict(dims=(4, 4), nband=2, ndet={'noshear': 2, '1p': 1}, nkey=2,
              fail=[1]),
         dict(dims=(4, 4), nband=2, ndet={'noshear': 2}, nkey=1,
              combs=[[1, 0], [1]]),
         dict(dims=(4, 4), nband=2, ndet={'noshear': 2, '1p': 1}, nkey=2,
              psf_fail=[1]),
         dict(dims=(4, 4), nband=1, ndet={'noshear': 1, '1p': 1}, nkey=1,
              psf_fail=[0], fail=[1])]
    if _t(tier):
        z += [dict(dims=(4, 4), nband=2, ndet={'noshear': 3, '1p': 2}, nkey=2,
                   combs=[[1, 0], [1]]),
              dict(dims=(4, 4), nband=1, ndet={'noshear': 4}, nkey=2,
                   same=True)]
    return [('mdet', 'colors', c) for c in z]


@prop('C19', 'images up to 2x2 (3x3 in the thorough tier), 1-2 bands, any '
      'weights, mask bits and masked fractions', PIPE)
def c19(tier):
    z = [dict(dims=(1, 2), nband=2, what='w'),
         dict(dims=(2, 2), nband=2, what='b'),
         dict(dims=(2, 2), nband=1, what='b', nodet=2 ** 2),
         dict(dims=(1, 2), nband=2, what='mm'),
         dict(dims=(1, 2), nband=2, what='m'),
         dict(dims=(1, 1), nband=2, what='wmm'),
         dict(dims=(1, 2), nband=2, what='w', combs=[[0]]),
         dict(dims=(1, 2), nband=2, what='b', combs=[[1], [0]]),
         dict(dims=(1, 2), nband=2, what='', mcal_fail=True),
         dict(dims=(2, 2), nband=1, what='', types=['noshear', '1p'],
              ndet=2)]
    if _t(tier):
        z += [dict(dims=(3, 3), nband=2, what='b'),
              dict(dims=(2, 3), nband=3, what='w'),
              dict(dims=(2, 2), nband=3, what='mmm')]
    return [('mdet', 'nothing', c) for c in z]


@prop('C20', 'every combination of the settings listed, every model; fitters '
      'alone with every combination of their settings, two with the models and '
      'one value for each setting that is not the default', PIPE)
def c20(tier):
    return [('misc', 'settings', dict(mode=m))
            for m in ('keys', 'model', 'fitters', 'color')] + [
        ('misc', 'honoured', dict(first=f, alone=a))
        for f in ('wavg', 'joint') for a in (True, False)]


@prop('C21', 'all flags, every pair of them (with the flags of ngmix)', [
    'the flags of ngmix are those of the release named in the stand-in'])
def c21(tier):
    return [('misc', 'flags', dict(mode=m)) for m in ('values', 'names')]


# ---- metadetect.lsst

LSSTA = ['the stand-ins for the LSST stack hold pixels, masks, boxes, '
         'positions, footprints and settings; detection, deblending, '
         'backgrounds and measurements are arbitrary answers']


@prop('C22', 'every combination of the settings, of nested settings and of '
      'unknown names listed; any values', LSSTA)
def c22(tier):
    return [('lsettings', 'full', dict(mode=m))
            for m in ('top', 'sub', 'names')] + [
        ('lsettings', 'override', dict(mode=m)) for m in ('values', 'bad')]


@prop('C23', 'images up to 2x3 (21x20 with constant pixels), 1-2 bands, up '
      'to 2 holes of any centre and radius, any pixel values', LSSTA)
def c23(tier):
    e = [dict(dims=(2, 3)),
         dict(dims=(3, 2), nband=2, noise=False, mfrac=False, nor=2,
              xy0=(7, -2)),
         dict(dims=(21, 20), light=True), dict(dims=(2, 2), nor=0)]
    b = [dict(dims=(2, 2)),
         dict(dims=(2, 2), nholes=2, nor=0, noise=False),
         dict(dims=(2, 2), xy0=(7, -2), nband=2, nor=2, mfrac=False),
         dict(dims=(3, 3), geom=[[1, 2, 1.5]]),
         dict(dims=(3, 3), geom=[[1, 2, 1.5]], xy0=(0, 6), noise=False),
         dict(dims=(2, 3), geom=[[0, 1, 1.]], xy0=(-4, 0), mfrac=False),
         dict(dims=(1, 2), nband=5, nor=5, geom=[[0, 0, 1.]]),
         dict(dims=(2, 3), geom=[[1, 2, 0], [20, 30, 12.]], xy0=(7, -2),
              nband=2)]
    if _t(tier):
        e += [dict(dims=(25, 21), light=True, nband=2, xy0=(7, -2)),
              dict(dims=(4, 4), nband=3, nor=3)]
        b += [dict(dims=(3, 3), nholes=1, xy0=(7, -2)),
              dict(dims=(3, 4), geom=[[1, 2, 1.5], [9, 1, 2.], [2, 2, .5]],
                   nband=2)]
    return [('lmask', 'edge', c) for c in e] + [
        ('lmask', 'bright', c) for c in b]


@prop('C25', 'images up to 2x3 (averages), 3x3 (bits) and 9x8 (weighted '
      'means, several positions), 1-3 bands, any pixels, variances of either '
      'sign', LSSTA + ['medians of three or more values are only known to be '
                       'in the range of, and a function of, the values'])
def c25(tier):
    z = [('average', c) for c in (
        dict(dims=(1, 2), nband=2),
        dict(dims=(2, 2), nband=2, bad=[1], xy0=(7, -2), med=1),
        dict(dims=(2, 2), nband=3, infs=[1], bad=[0], med=1),
        dict(dims=(1, 2), nband=2, infs=[1]),
        dict(dims=(2, 2), nband=2, none=True), dict(dims=(2, 3), nband=1),
        dict(dims=(1, 2), nband=5))]
    z += [('ormasks', c) for c in (
        dict(dims=(2, 2), nband=2), dict(dims=(2, 3), nband=3),
        dict(dims=(1, 2), nband=5),
        dict(dims=(2, 3), nband=2, given=False),
        dict(dims=(2, 3), nband=1, n=3))]
    z += [('maskcol', c) for c in (
        dict(dims=(2, 2)), dict(dims=(2, 3), n=2, xy0=(7, -2)))]
    z += [('mfcol', c) for c in (
        dict(dims=(4, 5), pos=[(1.25, 2.0), (3.4, 0.0)], fwhm=.3),
        dict(dims=(5, 3), pos=[(1.5, 2.5), (0, 0), (4., 1.5)], fwhm=.3,
             xy0=(7, -2)),
        dict(dims=(4, 3), pos=[(1.5, 2.25)]),
        dict(dims=(9, 8), pos=[(4.25, 6.5)]),
        dict(dims=(4, 3), pos=[(1.5, 2.25)], zero=True),
        dict(dims=(5, 6), pos=[(1.4375, 2.4375), (2.5625, 3.5625)], fwhm=.3),
        dict(dims=(4, 3), pos=[(1., 2)], fwhm=.1),
        dict(dims=(1, 3), pos=[(0., 1.)], fwhm=.3, anywhere='col'),
        dict(dims=(3, 1), pos=[(1., 0.)], fwhm=.3, anywhere='row'))]
    if _t(tier):
        z += [('average', dict(dims=(3, 3), nband=4, bad=[2], med=1)),
              ('average', dict(dims=(2, 2), nband=2, bad=[1], med=9)),
              ('maskcol', dict(dims=(4, 5), n=1, xy0=(100, 200))),
              ('mfcol', dict(dims=(12, 11), xy0=(5, 5), pos=[
                  (a + .25, b - .25) for a in (0, 4, 8, 11)
                  for b in (1, 5, 10)]))]
    return [('lcols',) + c for c in z]


@prop('C26', 'images up to 3x4, 1-2 bands, all shear types, any pixels, any '
      'psf size and shape measurements; the local WCS matrix is any '
      '(entries in [-2,2]) and depends on the position', LSSTA + [
          'galsim is a stand-in: drawing gives arbitrary pixels, and what is '
          'drawn is checked as an expression'])
def c26(tier):
    z = [dict(dims=(3, 3)),
         dict(dims=(3, 2), nband=2, stats=False, xy0=(7, -2), planes='ivm'),
         dict(dims=(3, 4), types=['2p', 'noshear', '2m'], single=True),
         dict(dims=(1, 2), nband=5, types=['1p']),
         dict(dims=(2, 2), nband=2, cls='ExposureD', planes='ivm'),
         dict(dims=(2, 2), cls='ExposureD', single=True),
         dict(dims=(2, 3), nband=2, xy0=(-3, 8), psfdim=5,
              types=['1p', '2p', '1m', '2m', 'noshear'])]
    if _t(tier):
        z += [dict(dims=(4, 5), nband=3, xy0=(7, -2), planes='ivm'),
              dict(dims=(5, 5), nband=2, stats=False)]
    return [('lmcal', 'metacal', c) for c in z] + [
        ('lmcal', 'mismatch', dict(nband=a, n=b))
        for a, b in ((1, 1), (1, 2), (2, 1), (2, 2))]


@prop('C27', 'images up to 3x3, any pixels (variances of either sign), local '
      'WCS matrix any (entries in [-2,2]) and depending on the position, '
      'several image origins', LSSTA)
def c27(tier):
    z = [('exp2obs', c) for c in (
        dict(dims=(2, 3)),
        dict(dims=(3, 2), xy0=(7, -2), mask='bmask', store=True),
        dict(dims=(3, 3), xy0=(-3, 5), cls='ExposureD', psfdim=1, vlo=1),
        dict(dims=(2, 2), mask='other'))]
    z += [('obs2exp', c) for c in (
        dict(dims=(2, 3)),
        dict(dims=(3, 2), xy0=(7, -2), mask='ormask', copy_psf=True),
        dict(dims=(2, 2), into=False, copy_psf=True),
        dict(dims=(2, 2), mask='other'))]
    z += [('source', c) for c in (
        dict(dims=(2, 2)), dict(dims=(1, 3), xy0=(7, -2), nocoord=True),
        dict(dims=(3, 3), xy0=(7, -2), vlo=1))]
    z += [('psfs', dict(mode=m)) for m in ('shape', 'missing')]
    if _t(tier):
        z += [('exp2obs', dict(dims=(5, 6), xy0=(7, -2))),
              ('obs2exp', dict(dims=(5, 6), xy0=(7, -2))),
              ('source', dict(dims=(2, 3), xy0=(7, -2))),
              ('source', dict(dims=(4, 5), xy0=(7, -2), light=True, vlo=1))]
    return [('lobs',) + c for c in z]


@prop('C28', 'boxes: any position, origin up to +-5000 and image up to '
      '4000x4000, any stamp size up to 400; pixels: images up to 5x5, up to 3 '
      'sources with models up to 2x2 before convolution, 1-3 bands',
      LSSTA + ['models have no negative pixels where there is more than one '
               'band'])
def c28(tier):
    z = [('box', dict(clip=c, which=w, off=o))
         for c, o in ((False, False), (True, False), (True, True))
         for w in ('util', 'subtractor')]
    z += [('plain', c) for c in (
        dict(dims=(5, 4), spec=[[3, 0, 2, [1, 2], None],
                                [5, 3, 0, [1, 2], None],
                                [9, 3, 0, [2, 2], None]], size=3),
        dict(dims=(4, 5), spec=[[3, 0, 0, [8, -1], None],
                                [9, 3, 0, [11, 1], None]], size=2,
             xy0=(7, -2), clip=True),
        dict(dims=(5, 5), spec=[[3, 0, 0, [2, 2], None],
                                [4, 0, 1, [0, 0], None]], size=3, nband=3,
             clip=True),
        dict(dims=(4, 4), spec=[], size=2, nband=1))]
    z += [('models', c) for c in (
        dict(dims=(4, 4), spec=[[1, 0, 2, [1, 1], [[1, 1]]],
                                [3, 1, 0, [1, 1], None],
                                [5, 1, 0, [2, 2], None]],
             boxes=[[3, [1, 1], [1, 1]], [5, [2, 2], [1, 1]]]),
        dict(dims=(4, 4), spec=[[3, 0, 0, [7, -1], None],
                                [5, 0, 0, [9, 0], None]],
             boxes=[[3, [7, -1], [2, 1]], [5, [9, 0], [1, 1]]],
             xy0=(7, -2), clip=True, fail=False),
        dict(dims=(3, 3), spec=[[3, 0, 0, [1, 1], None]],
             boxes=[[3, [1, 1], [2, 2]]], nband=1, size=2),
        dict(dims=(3, 3), spec=[[3, 0, 0, [1, 1], None],
                                [4, 0, 0, [0, 2], None]],
             boxes=[[3, [1, 1], [2, 1]], [4, [0, 2], [1, 1]]], nband=1,
             neg=True),
        dict(dims=(3, 3), spec=[[3, 0, 0, [1, 1], None]],
             boxes=[[3, [1, 1], [1, 1]]], nband=5),
        dict(dims=(3, 4), spec=[[3, 0, 0, [0, 1], None]],
             boxes=[[3, [0, 1], [1, 1]]], size=5, fail=False),
        # psfs that are not square, and light in a single pixel
        dict(dims=(3, 4), spec=[[3, 0, 0, [1, 1], None]],
             boxes=[[3, [1, 1], [1, 1]]], nband=1, psf=(1, 3), size=2),
        dict(dims=(5, 3), spec=[[3, 0, 0, [1, 2], None]],
             boxes=[[3, [1, 2], [1, 1]]], nband=1, psf=(3, 1), size=2),
        dict(dims=(3, 3), spec=[[3, 0, 0, [1, 1], None],
                                [4, 0, 0, [2, 0], None]],
             boxes=[[3, [1, 1], [1, 1]], [4, [2, 0], [1, 1]]], psf=(1, 1),
             size=2))]
    if _t(tier):
        z += [('models', dict(
            dims=(3, 5), spec=[[3, 0, 0, [1, 1], None],
                               [4, 0, 0, [3, 1], None],
                               [5, 0, 0, [2, 1], None]],
            boxes=[[3, [1, 1], [1, 1]], [4, [3, 1], [1, 1]],
                   [5, [2, 1], [1, 1]]], nband=3, clip=True)),
            ('plain', dict(dims=(7, 7), spec=[[3, 0, 0, [3, 3], None],
                                              [4, 0, 0, [1, 2], None]],
                           size=5, nband=2))]
    return [('lstamp',) + c for c in z]


@prop('C29', 'up to 3 exposures up to 2x3, any pixels, variances, masks and '
      'psfs; exposures with infinite variance or without good pixels', LSSTA
      + ['medians of three or more values are only known to be in the range '
         'of, and a function of, the values'])
def c29(tier):
    z = [dict(dims=(2, 2)), dict(dims=(2, 1), neg=2, xy0=(7, -2), med=1),
         dict(dims=(1, 2), n=3, infs=[1], neg=2, med=1),
         dict(dims=(2, 3), n=2, none=[0]), dict(dims=(2, 2), n=2, none=[1]),
         dict(dims=(1, 2), n=3, none=[0, 2]),
         dict(dims=(2, 2), n=2, none=[0], infs=[1]),
         dict(dims=(2, 2), n=2, none=[0, 1]),
         dict(dims=(1, 2), n=3, infs=[0, 2], xy0=(-1, 4)),
         dict(dims=(2, 2), n=2, infs=[0, 1]),
         dict(dims=(1, 2), n=1, cls='ExposureD'), dict(dims=(1, 2), n=5),
         dict(dims=(2, 2), n=1),
         dict(dims=(2, 3), n=3, cls='ExposureD', xy0=(7, -2), neg=1)]
    m = [dict(dims=(1, 2)), dict(dims=(2, 2), n=3)]
    if _t(tier):
        z += [dict(dims=(2, 2), med=9),
              dict(dims=(1, 2), n=3, infs=[1], neg=2, med=9),
              dict(dims=(4, 4), n=4, neg=1)]
        m += [dict(dims=(4, 4), n=4)]
    return [('lcoadd', 'exposures', c) for c in z] + [
        ('lcoadd', 'mbobs', c) for c in m]


@prop('C24', 'images up to 5x5, up to 4 sources, 1-3 bands, any centroids, '
      'sky positions and mask bits, any subset of stamps without weight, '
      'stamps off the edge, with and without models of neighbours', LSSTA + [
          'fits give values that identify the pixels that were fit'])
def c24(tier):
    two = [[5, 3, 0, [1, 2], None], [9, 3, 0, [2, 2], None]]
    z = [dict(dims=(5, 4), spec=[[3, 0, 2, [1, 2], None]] + two
              + [[11, 0, 0, [3, 3], None]],
              fault=[[5, 0, 'zero'], [9, 1, 'negative']]),
         dict(dims=(4, 5), spec=[[3, 0, 0, [8.25, -0.75], None],
                                 [9, 0, 0, [10, 0], None]], xy0=(7, -2),
              nan=[3], shear=[1], nband=3),
         dict(dims=(4, 4), spec=[[3, 0, 0, [1, 1], None]], nband=1,
              fwhm=1.25),
         dict(dims=(4, 5), spec=[[3, 0, 0, [1, 2], None],
                                 [4, 0, 0, [3, 1], None]], far=100,
              peaks=[[3, 2, 1], [4, 0, 0], [4, 3, 3]]),
         dict(dims=(4, 5), spec=[[3, 0, 0, [1, 2], None],
                                 [4, 0, 0, [3, 1], None]], lost=4),
         dict(dims=(3, 3), spec=[[3, 0, 0, [1, 1], None]], nband=5,
              shear=[0, 4]),
         dict(dims=(5, 5), spec=[[3, 0, 0, [2, 2], None],
                                 [2, 0, 0, [1, 2], None]], nband=3, size=5,
              shear=[2, 0], fault=[[3, 1, 'zero'], [3, 2, 'zero']]),
         dict(dims=(4, 4), spec=[[3, 0, 2, [1, 1], None]]),
         dict(dims=(4, 4), spec=[], nosrc='none'),
         dict(dims=(4, 4), spec=[], nosrc='empty'),
         dict(dims=(4, 4), spec=[[1, 0, 2, [1, 1], [[1, 1]]],
                                 [3, 1, 0, [1, 1], None],
                                 [5, 1, 0, [2, 2], None],
                                 [7, 0, 0, [0, 0], None]],
              boxes=[[3, [1, 1], [1, 1]], [5, [2, 2], [1, 1]],
                     [7, [0, 0], [1, 1]]], data=True)]
    if _t(tier):
        z += [dict(dims=(7, 7), spec=[[k, 0, 0, [101 + k % 4, 201 + k // 3], None]
                                      for k in range(1, 9)], nband=2,
                   xy0=(100, 200), fault=[[4, 0, 'zero'], [5, 1, 'zero'],
                                          [6, 0, 'negative']])]
    return [('lmeas', 'rows', c) for c in z]


@prop('C30', '1-3 bands, any psf, shapes (up to .5), sizes and weights, any '
      'failed band, local WCS matrix any (entries in [-2,2])', LSSTA)
def c30(tier):
    z = [dict(nband=1), dict(nband=2, shear=[1], xy0=(7, -2), fail=[0, 1]),
         dict(nband=3, shear=[2, 0], psfdim=5, dims=(4, 4)),
         dict(nband=2, raises=[[1, 'psf']]),
         dict(nband=2, shear=[0], raises=[[1, 'range']]),
         dict(nband=2, shear=[0], missing=True),
         dict(nband=4, shear=[3]), dict(nband=6, shear=[1, 3, 5])]
    if _t(tier):
        z += [dict(nband=3, fail=[0, 1, 2], psfdim=7, dims=(6, 9)),
              dict(nband=3, shear=[1], raises=[[0, 'range']])]
    return [('lcols', 'psfs', c) for c in z] + [
        ('lcols', 'psfcol', dict(n=n)) for n in (1, 3)]


@prop('C31', '1-3 bands of up to 4 pixels, -1 to 3 iterations, any sky, '
      'threshold and failing step', LSSTA)
def c31(tier):
    I = [dict(), dict(niter=1, how='task'), dict(niter=3, dims=(2, 2)),
         dict(niter=0), dict(niter=-1, how='task'),
         dict(niter=0, how='task'), dict(given=False),
         dict(given=False, how='task'), dict(fault=[0, 'lsst']),
         dict(fault=[1, 'task']), dict(fault=[2, 'task'], how='task'),
         dict(fault=[3, 'lsst']), dict(fault=[3, 'other']),
         dict(niter=3, found='any'),
         dict(niter=2, found='any', how='task')]
    B = [dict(nband=1), dict(nband=5), dict(nband=2, found='any'), dict(nband=2, conf='niter'),
         dict(nband=3, conf='default'), dict(nband=3, fault=[1, 'lsst']),
         dict(nband=2, fault=[2, 'task'])]
    if _t(tier):
        I += [dict(niter=4, dims=(3, 3))]
        B += [dict(nband=3, fault=[5, 'task'], dims=(3, 3))]
    return [('lsky', 'iterate', c) for c in I] + [
        ('lsky', 'bands', c) for c in B] + [('lsky', 'once', {})]


@prop('C32', 'images of up to 6 pixels for the noise (medians of up to 4), '
      '3x3 for the replacement; 1-3 bands, the footprints listed; any pixels, '
      'variances (also nan and infinite where listed), gains and draws', LSSTA)
def c32(tier):
    I = [dict(dims=(1, 2)), dict(dims=(2, 2), xy0=(3, -2)),
         dict(dims=(1, 3), bad=[[0, 0, 'i'], [0, 2, 'v']]),
         dict(dims=(1, 2), bad=[[0, 0, 'v'], [0, 1, 'i']]),
         dict(dims=(1, 2), gains=1),
         dict(dims=(1, 3), gains=2, bad=[[0, 1, 'i']])]
    R = [dict(feet='two'), dict(feet='two', nband=2, raises='source'),
         dict(feet='touch', nband=2, raises='body', xy0=(5, -7)),
         dict(feet='one', nband=3, again=True), dict(feet='none', nband=2),
         dict(feet='blend', nband=2), dict(feet='blend', kind='context'),
         dict(feet='blend', kind='plain', given=True),
         dict(feet='two', nband=5),
         dict(feet='two', kind='context'),
         dict(feet='touch', kind='context', given=True, raises='source'),
         dict(feet='one', kind='context', raises='body', xy0=(-3, 4)),
         dict(feet='touch', kind='plain', given=True)]
    if _t(tier):
        I += [dict(dims=(2, 3), bad=[[0, 1, 'i'], [1, 0, 'v'], [1, 1, 'i']]),
              dict(dims=(1, 3), gains=3, bad=[[0, 0, 'v'], [0, 2, 'i']])]
        R += [dict(feet='touch', nband=3, dims=(4, 5), raises='source',
                   again=True)]
    return [('lnoise', 'image', c) for c in I] + [
        ('lnoise', 'replacer', c) for c in R] + [
        ('lnoise', 'partial', c) for c in (
            dict(), dict(nband=3, at=2, feet='touch'), dict(at=0),
            dict(nband=3, at=1), dict(at=2))]


@prop('C33', '1-3 bands in any order, up to 2x2 (1x3) pixels with any values, '
      'variances and masks', LSSTA)
def c33(tier):
    O = [dict(), dict(nband=1, dims=(1, 3), xy0=(5, -6)), dict(nband=5),
         dict(nband=3, dims=(2, 1), order=['i', 'g', 'z'])]
    K = [dict(), dict(nband=5), dict(nband=3, clear=True, xy0=(7, -1), noclone=[1]),
         dict(nband=1, clear=False, noclone=[0], cls='ExposureD'),
         dict(nband=3, dims=(1, 2), order=['z', 'g', 'i'])]
    D = [dict(), dict(nband=3), dict(nband=5)]
    if _t(tier):
        O += [dict(nband=3, dims=(4, 5))]
        K += [dict(nband=3, dims=(4, 5), clear=True)]
    return [('lmulti', 'coadds', c) for c in O] + [
        ('lmulti', 'copies', c) for c in K] + [
        ('lmulti', 'deconvolved', c) for c in D]


@prop('C34', 'images up to 7x7 with any pixels, any position', LSSTA)
def c34(tier):
    T = [dict(dims=(m, n)) for m in (1, 3, 5, 7) for n in (1, 3, 5, 7)]
    T += [dict(dims=d) for d in ((4, 4), (4, 6), (3, 4), (4, 3), (2, 2))]
    if _t(tier):
        T += [dict(dims=d) for d in ((9, 3), (3, 11), (11, 9), (8, 8))]
    P = [dict(dims=(3, 3)), dict(dims=(4, 4)), dict(dims=(3, 5)),
         dict(dims=(3, 3), fail='invalid'), dict(dims=(3, 3), fail='other'),
         dict(dims=(5, 3), fix=True), dict(dims=(1, 5), fix=True),
         dict(dims=(3, 3), fix=True), dict(dims=(3, 2), fix=True),
         dict(dims=(3, 5), fail='invalid', fix=True)]
    return [('lmulti', 'trim', c) for c in T] + [
        ('lmulti', 'psfimage', c) for c in P] + [
        ('lobs', 'source', dict(dims=(2, 2))),
        ('lobs', 'source', dict(dims=(1, 3), xy0=(7, -2), nocoord=True))]


@prop('C35', '1-3 bands of up to 2 pixels (medians of up to 2), any pixels, '
      'variances, psfs and threshold, the settings and results listed', LSSTA)
def c35(tier):
    z = [dict(), dict(found='none'), dict(found='empty', xy0=(5, -3)),
         dict(cls='ExposureD'), dict(nband=2),
         dict(nband=3, found='none', default=True),
         dict(nband=2, settings={'detect': {'minPixels': 3}},
              cls='ExposureD'),
         dict(nband=3, deblender='scarlet'), dict(nobj=1),
         dict(nband=2, deblender='scarlet', nobj=1),
         dict(nband=5, dims=(1, 1), deblender='scarlet'),
         dict(deblender='scarlet', found='none'),
         dict(nband=2, deblender='scarlet', found='empty', seed=1),
         dict(nband=2, none=True),
         dict(nband=3, none=True, deblender='scarlet')]
    if _t(tier):
        z += [dict(nband=3, dims=(2, 2), med=4),
              dict(nband=3, deblender='scarlet', cls='ExposureD',
                   settings={'detect': {'minPixels': 3}})]
    return [('ldet', 'detect', c) for c in z]


@prop('C36', '1-3 bands of 3x3 (4x5) pixels with one object, any pixels, '
      'masks, psfs, draws, skies, psf fits (failing where listed), one '
      'variance (any for one band), the settings and shears listed, nothing '
      'found for any one shear', LSSTA)
def c36(tier):
    z = [dict(),
         dict(types=['noshear'], conf={'metacal': {'reconv_type': 'gauss'},
                                       'thresh': 1, 'fwhm': 1},
              found=['some']),
         dict(types=['noshear', '1p', '1m', '2p', '2m'], fail=[0],
              found=['any', 'some', 'any'], stats=True),
         dict(nband=2, conf={'shear_bands': ['r']}, fail=[1],
              types=['noshear', '1p'], xy0=(4, -7)),
         dict(nband=3, conf={'shear_bands': ['i', 'g'], 'thresh': 1,
                             'deblender': 'scarlet'},
              types=['2m', 'noshear'], mfrac=False),
         dict(nband=1, conf={'subtract_sky': True, 'thresh': 1},
              ormasks=False, mfrac=False),
         dict(nband=2, conf={'subtract_sky': True, 'fwhm': 1}, types=['1m'],
              dims=(4, 5), stats=True, found=['any']),
         dict(found=['none', 'empty', 'any'], mfrac=False),
         dict(nband=2, size=5, types=['noshear', '1p']),
         dict(nband=5, types=['noshear'], found=['some'],
              conf={'shear_bands': ['i2']})]
    if _t(tier):
        z += [dict(nband=3, fail=[0, 1, 2], types=['2p', '2m', '1p'],
                   found=['any', 'any', 'any'], dims=(5, 4)),
              dict(nband=2, conf={'metacal': {'reconv_type': 'gauss'},
                                  'subtract_sky': True, 'thresh': 1,
                                  'deblender': 'scarlet'}, stats=True)]
    return [('lflow', 'metadetect', c) for c in z]


@prop('C37', '1-3 bands of 3x3 (4x5) pixels with one object, any pixels, '
      'masks, psfs, skies and psf fits (failing where listed), one variance '
      '(any for one band), the settings listed', LSSTA)
def c37(tier):
    z = [dict(),
         dict(nband=2, conf={'subtract_sky': True, 'thresh': 1, 'fwhm': 1},
              xy0=(3, -2)),
         dict(nband=3, conf={'shear_bands': ['i', 'g'],
                             'deblender': 'scarlet'}, fail=[0, 2],
              found=['some']),
         dict(ormasks=False, mfrac=False,
              conf={'deblender': 'sdss', 'shear_bands': ['g']}),
         dict(dims=(4, 5), nband=2, fail=[1], found=['some']),
         dict(nband=2, size=5), dict(nband=5, found=['some'])]
    if _t(tier):
        z += [dict(nband=3, fail=[0, 1, 2], conf={'subtract_sky': True},
                   dims=(5, 4))]
    return [('lflow', 'photometry', c) for c in z]


@prop('C38', 'images up to 3x3 in up to 2 bands with arbitrary pixels, masks, '
      'masked fractions, noise, psf fits; up to 2 objects, 2 image types, '
      'every model, up to 2 combinations of bands, with and without colours; '
      'two runs', PIPE)
def c38(tier):
    D = dict(dims=(3, 3), nband=2)
    z = [dict(D), dict(D, fitters=AM, ndet=2),
         dict(D, conf={'model': 'am'}),
         dict(D, fitters=[{'model': 'admom', 'symmetrize': False}]),
         dict(D, fitters=[{'model': 'ksigma', 'weight': {'fwhm': 2.0}},
                          {'model': 'am', 'weight': {}}]),
         dict(D, combs=[[0], [1, 0]], dets='shear_bands'),
         dict(D, combs=[[1]], dets=[[0]], nkey=1),
         dict(D, nkey=2, conf={'nodet_flags': 2 ** 4}, planes='om'),
         dict(D, conf={'mask_region': 2, 'ormask_region': 3,
                       'mfrac_fwhm': 2.0}),
         dict(D, planes='', psf_fail=[(0, 0)]),
         dict(D, planes='bo', mcal_fail=[0]),
         dict(D, planes='', what='w', combs=[[0, 1], [1]])]
    if _t(tier):
        z += [dict(dims=(4, 4), nband=3, ndet=3, fitters=AM,
                   combs=[[0], [2, 1], [1]], dets=[[1], [0, 1, 2], [2]],
                   nkey=2)]
    return [('pure', 'run', c) for c in z]


# ---- nothing of an earlier run is left in a later one

_also('C01', *[_seq('shearpos', 'matrix', dict(shear='1p', which=w),
                    dict(shear=s, which=w))
               for w, s in (('shear', '1p'), ('unshear', '1p'),
                            ('shear', '1m'))])
_also('C02',
      _seq('masking', 'bmask', dict(dims=(1, 2), nholes=1, sym=False),
           dict(dims=(1, 2), nholes=1, sym=False)),
      _seq('masking', 'bmask', dict(dims=(2, 2), nholes=1, sym=True),
           dict(dims=(2, 2), nholes=0, sym=False)),
      _seq('masking', 'apmask', dict(dims=(1, 2), nholes=1, sym=False, h=1),
           dict(dims=(1, 2), nholes=1, sym=False, h=.5)),
      _seq('masking', 'apmask', dict(dims=(2, 2), nholes=1, sym=True, h=1),
           dict(dims=(2, 2), nholes=0, sym=True, h=1)))
_also('C03',
      _seq('masking', 'edge_corr', dict(dims=(3, 4), h=.5),
           dict(dims=(3, 4), h=.25, nband=2), dict(dims=(4, 3), h=.25)),
      _seq('masking', 'fg_apodize',
           dict(dims=(3, 3), geom=(1, 2, 1.5, .25)),
           dict(dims=(3, 3), geom=(0, 1, 2.1, .5), sym=True)),
      _seq('masking', 'fg_interp', dict(dims=(1, 2)),
           dict(dims=(1, 2), nband=2)))
_also('C04',
      _seq('masking', 'interp', dict(dims=(1, 4), buff=1),
           dict(dims=(1, 4), buff=2, maxfrac=.5)),
      _seq('masking', 'interp', dict(dims=(1, 3), fill=True),
           dict(dims=(3, 1), fill=True, iso_buff=2)))
_also('C05',
      _seq('detect', 'cutout', dict(dims=(2, 2), box=2, what='image'),
           dict(dims=(2, 2), box=4, what='image')),
      _seq('detect', 'cutout', dict(dims=(2, 2), box=2, what='bmask'),
           dict(dims=(2, 2), box=2, what='weight')))
_also('C06',
      _seq('detect', 'detin', dict(dims=(1, 2), nband=2, nodet=1),
           dict(dims=(1, 2), nband=2, nodet=4, sx=False),
           dict(dims=(1, 2), nband=1, nodet=4)))
_also('C07',
      _seq('detect', 'detcat',
           dict(dims=(1, 1), box_type='iso_radius', lo=32, hi=48, rad_min=4,
                rad_fac=2, box_padding=2),
           dict(dims=(1, 1), box_type='iso_radius', lo=40, hi=48, rad_min=1,
                rad_fac=3, box_padding=0)),
      _seq('detect', 'detcat',
           dict(dims=(1, 1), box_type='iso_radius', lo=48, hi=64, rad_min=1,
                rad_fac=3, box_padding=0),
           dict(dims=(1, 1), box_type='sigma_size', lo=32, hi=64,
                sigma_fac=5)))
_also('C08',
      _seq('fitting', 'wavg',
           dict(nband=2, shear=[0, 1], what=('e', 'T'), sym='W'),
           dict(nband=2, shear=[1], what=('e', 'T'), sym='W')),
      _seq('fitting', 'wavg', dict(nband=2, shear=[1], what=('T',),
                                   sym='C'),
           dict(nband=2, shear=[0], what=('T',), sym='C')),
      _seq('fitting', 'wavg', dict(nband=2, shear=[0, 1], what=('T',),
                                   sym='C'),
           dict(nband=2, shear=[0, 1], what=('T',), sym='C', reg=0.8)),
      _seq('fitting', 'wavg', dict(nband=1, shear=[0], what=('T', 's2n'),
                                   sym='S'),
           dict(nband=1, shear=[0], what=('T', 's2n'), sym='S',
                kind='pgauss')))
_also('C10',
      _seq('fitting', 'symm', dict(n=3, zero=[(0, 1)]),
           dict(n=3, zero=[(1, 1)])),
      _seq('fitting', 'symm', dict(n=2), dict(n=2, zero=[])))
_also('C11',
      _seq('fitting', 'coadd', dict(nband=2, shear=[0, 1]),
           dict(nband=2, shear=[1, 0], opt='nb'),
           dict(nband=2, shear=[1])))
_also('C12',
      _seq('fitting', 'gauss', dict(nband=2, shear=[0, 1], wsym=False),
           dict(nband=2, shear=[1], wsym=False)),
      _seq('fitting', 'gauss',
           dict(nband=3, shear=[2, 0], psfkey='e', wsym=False),
           dict(nband=2, shear=[0, 1], wsym=False)),
      _seq('fitting', 'gauss',
           dict(nband=2, shear=[0, 1], lst=True, wsym=False),
           dict(nband=2, shear=[0, 1], lst=True, wsym=False, pix=.5)),
      _seq('fitting', 'gauss', dict(nband=1, shear=[0], wsym=False),
           dict(nband=1, shear=[0], wsym=False, pix=.5)),
      _seq('fitting', 'gauss', dict(nband=1, shear=[0], wsym=False),
           dict(nband=1, shear=[0], wsym=False, pix=.5), rng='one'),
      _seq('fitting', 'admom', dict(nband=1, shear=[0], lst='am'),
           dict(nband=1, shear=[0], lst='am')),
      _seq('fitting', 'admom', dict(nband=2, shear=[0, 1]),
           dict(nband=1, shear=[0], sb='none')))
_also('C13',
      _seq(*R, *[dict(c, only='rows') for c in (
          dict(dims=(3, 3), nband=2, ndet={'noshear': 1, '1p': 1},
               types=['noshear', '1p']),
          dict(dims=(3, 3), nband=2, ndet={'noshear': 2, '1p': 1},
               types=['noshear', '1p'], step=.25, combs=[[1]],
               dets='shear_bands'),
          dict(dims=(3, 3), nband=1, fitters=AM, types=['noshear'],
               ndet={'noshear': 1}))]))
_also('C14',
      _seq(*R, *[dict(c, only='mask', types=['noshear'],
                      ndet={'noshear': 1}) for c in (
          dict(dims=(4, 4), nband=1, planes='bo', region=2),
          dict(dims=(4, 4), nband=2, planes='bo', region=2, oregion=3),
          dict(dims=(4, 4), nband=1, planes='bo'))]),
      _seq(*R, *[dict(c, only='mask', types=['noshear'],
                      ndet={'noshear': 1}) for c in (
          dict(dims=(3, 3), nband=1, planes='bo'),
          dict(dims=(4, 4), nband=1, planes='bo'))]))
_also('C15',
      _seq('mdet', 'mfrac',
           dict(dims=(3, 3), pos=[[1., 1.5]], boxes=[2], fwhm=.5),
           dict(dims=(3, 3), pos=[[1., 1.5]], boxes=[2], fwhm=.25),
           dict(dims=(3, 3), pos=[[1., 1.5]], boxes=[4], fwhm=None)))
_also('C16',
      _seq(*R, *[dict(c, only='psf', types=['noshear'],
                      ndet={'noshear': 1}) for c in (
          dict(dims=(3, 3), nband=2, wsym=True),
          dict(dims=(3, 3), nband=2, wsym=True, combs=[[1]]),
          dict(dims=(3, 3), nband=2, psf_fail=[(0, 1)], wsym=True))]))
_also('C17',
      _seq('misc', 'combine', *[dict(sizes=s) for s in (
          [1, 1], [2, 2], [None], [2])]))
_also('C18',
      _seq('mdet', 'colors',
           dict(dims=(4, 4), nband=1, ndet={'noshear': 1}, nkey=1,
                types=['noshear']),
           dict(dims=(4, 4), nband=2, ndet={'noshear': 1}, nkey=1,
                types=['noshear'])))
_also('C19',
      _seq('mdet', 'nothing', dict(dims=(1, 1), nband=1, what='w'),
           dict(dims=(1, 1), nband=1, what='m'),
           dict(dims=(1, 1), nband=1, what='b')))
_also('C23',
      _seq('lmask', 'edge', dict(dims=(2, 3)), dict(dims=(3, 2)),
           dict(dims=(2, 3), xy0=(7, -2), mfrac=False)),
      _seq('lmask', 'bright', dict(dims=(3, 3), geom=[[1, 2, 1.5]]),
           dict(dims=(3, 3), geom=[[0, 1, 2.]], xy0=(7, -2))))
_also('C24',
      _seq('lmeas', 'rows',
           dict(dims=(4, 4), spec=[[3, 0, 0, [1, 1], None]], nband=1,
                fwhm=1.25),
           dict(dims=(4, 4), spec=[[3, 0, 0, [2, 1], None]], nband=2,
                shear=[1], nan=[3]),
           dict(dims=(4, 4), spec=[[3, 0, 0, [1, 2], None]], nband=2,
                size=2, fault=[[3, 0, 'zero']])))
_also('C25',
      _seq('lcols', 'average', dict(dims=(1, 2), nband=2),
           dict(dims=(1, 2), nband=2), dict(dims=(2, 2), nband=2, none=True)),
      _seq('lcols', 'mfcol', dict(dims=(4, 3), pos=[(1.5, 2.25)]),
           dict(dims=(4, 3), pos=[(1.5, 1.25)], fwhm=.3),
           dict(dims=(4, 3), pos=[(1.5, 2.25)], zero=True)),
      _seq('lcols', 'ormasks', dict(dims=(1, 2), nband=2),
           dict(dims=(1, 2), nband=2)),
      _seq('lcols', 'maskcol', dict(dims=(2, 2)),
           dict(dims=(2, 2), xy0=(7, -2))))
_also('C26',
      _seq('lmcal', 'metacal', dict(dims=(2, 3), types=['1p', 'noshear']),
           dict(dims=(2, 3), types=['1p', 'noshear'], xy0=(7, -2)),
           dict(dims=(2, 3), types=['1m'], stats=False)))
_also('C27',
      _seq('lobs', 'exp2obs', dict(dims=(2, 3)),
           dict(dims=(2, 3), xy0=(7, -2), mask='bmask')),
      _seq('lobs', 'obs2exp', dict(dims=(2, 2)),
           dict(dims=(2, 2), mask='ormask', copy_psf=True)),
      _seq('lobs', 'source', dict(dims=(1, 2)),
           dict(dims=(1, 2), xy0=(7, -2), nocoord=True)))
_also('C28',
      _seq('lstamp', 'plain',
           dict(dims=(5, 4), spec=[[5, 0, 0, [1, 2], None]], size=3),
           dict(dims=(5, 4), spec=[[5, 0, 0, [2, 1], None]], size=2,
                clip=True)),
      _seq('lstamp', 'models',
           dict(dims=(3, 3), spec=[[3, 0, 0, [1, 1], None]],
                boxes=[[3, [1, 1], [2, 2]]], nband=1, size=2),
           dict(dims=(3, 3), spec=[[3, 0, 0, [1, 2], None]],
                boxes=[[3, [1, 2], [1, 1]]], nband=2, clip=True)))
_also('C29',
      _seq('lcoadd', 'exposures', dict(dims=(1, 2)),
           dict(dims=(1, 2), xy0=(7, -2)),
           dict(dims=(1, 2), n=1, cls='ExposureD')))
_also('C30',
      _seq('lcols', 'psfs', dict(nband=2), dict(nband=2, shear=[1]),
           dict(nband=2, shear=[0], raises=[[1, 'psf']]), dict(nband=1)))
_also('C31',
      _seq('lsky', 'iterate', dict(niter=3), dict(niter=1), dict(given=False),
           dict(niter=1, how='task')),
      _seq('lsky', 'bands', dict(nband=2, conf='niter'), dict(nband=2),
           dict(nband=1, conf='default')))
_also('C32',
      _seq('lnoise', 'image', dict(dims=(1, 2)), dict(dims=(1, 2)),
           dict(dims=(1, 2), gains=1)),
      _seq('lnoise', 'replacer', dict(feet='two', nband=2, raises='body'),
           dict(feet='touch', nband=2), dict(feet='one', kind='context')))
_also('C33',
      _seq('lmulti', 'coadds', dict(), dict()),
      _seq('lmulti', 'copies', dict(), dict(clear=True), dict()))
_also('C34',
      _seq('lmulti', 'trim', dict(dims=(3, 5)), dict(dims=(5, 3)),
           dict(dims=(3, 5)), dict(dims=(3, 3))),
      _seq('lmulti', 'psfimage', dict(dims=(3, 3)), dict(dims=(3, 3)),
           dict(dims=(5, 3), fix=True)))
_also('C35',
      _seq('ldet', 'detect', dict(nband=2, xy0=(3, -4)), dict(nband=2),
           dict(nband=1, xy0=(-7, 2))),
      _seq('ldet', 'detect', dict(nband=2), dict(deblender='scarlet'),
           dict(nband=2, settings={'detect': {'minPixels': 3}}),
           dict(default=True), dict(nband=2, none=True)))
_also('C36',
      _seq('lflow', 'metadetect',
           dict(types=['noshear', '1p'], found=['some', 'some'],
                conf={'thresh': 1, 'fwhm': 1}),
           dict(types=['1p'], found=['some'], xy0=(4, -7),
                conf={'metacal': {'reconv_type': 'gauss'}}, mfrac=False)))
_also('C37',
      _seq('lflow', 'photometry',
           dict(conf={'thresh': 1, 'fwhm': 1}, found=['some']),
           dict(found=['some'], nband=2, conf={'shear_bands': ['g']}),
           dict(found=['some'], conf={'subtract_sky': True}, mfrac=False)))
_also('C09',
      _seq('fitting', 'wavg', dict(nband=2, shear=[0, 1], what=('e', 'T'),
                                   fault={'1': 'missing'}),
           dict(nband=2, shear=[0], what=('flags', 'e', 'T'), sym='',
                fault={'0': 'w'}, flags=4),
           dict(nband=1, shear=[0], what=('flags', 'T'), sym='F')),
      _seq('fitting', 'gauss', dict(nband=2, shear=[0, 1], raises='psf'),
           dict(nband=2, shear=[0], fault={'1': 'missing'}),
           dict(nband=1, shear=[0])),
      _seq('fitting', 'admom', dict(nband=2, shear=[0, 1], raises='p'),
           dict(nband=1, shear=[0], raises='o', tflags=False),
           dict(nband=1, shear=[0], tflags=False)))
