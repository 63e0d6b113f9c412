class _Stub:
    def __init__(self, *args, **kw):
        self.args = args
        self.kw = kw


class SimplePSFGuesser(_Stub):
    pass


class GMixPSFGuesser(_Stub):
    pass


class TPSFFluxGuesser(_Stub):
    pass


class GPriorBA(_Stub):
    pass


class CenPrior(_Stub):
    pass


class TwoSidedErf(_Stub):
    pass


class PriorSimpleSep(_Stub):
    pass
