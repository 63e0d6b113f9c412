class _Stub:
    def __init__(self, *args, **kw):
        self.args = args
        self.kw = kw


class SimplePSFGuesser(_Stub):
    pass


class GMixPSFGuesser(_Stub):
    pass


class TPSFFluxGuesser(_Stub):
    pass


class GPriorBA(_Stub):
    pass


class CenPrior(_Stub):
    def __init__(self, cen1, cen2, sigma1, sigma2, rng=None):
        super().__init__(cen1, cen2, sigma1, sigma2, rng)
        self.cen1, self.cen2 = cen1, cen2
        self.sigma1, self.sigma2 = sigma1, sigma2


class TwoSidedErf(_Stub):
    pass


class PriorSimpleSep(_Stub):
    pass
