class FitterBase:
    kind = 'base'

    def __init__(self, *args, **kw):
        self.args = args
        self.kw = kw

    def go(self, obs, *args, **kw):
        from . import hooks
        return hooks['fitter_go'](self, obs, *args, **kw)


class Fitter(FitterBase):
    kind = 'fit'

    def __init__(self, model=None, prior=None, fit_pars=None):
        super().__init__(model=model, prior=prior, fit_pars=fit_pars)
        self.model = model
