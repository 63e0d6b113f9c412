from .observation import Observation, ObsList, MultiBandObsList
from .gexceptions import BootPSFFailure  # noqa


class RunnerBase:
    def __init__(self, fitter, guesser=None, ntry=1):
        self.fitter = fitter
        self.guesser = guesser
        self.ntry = ntry


class Runner(RunnerBase):
    def go(self, obs):
        from . import hooks
        if 'runner_go' in hooks:
            return hooks['runner_go'](self, obs)
        return self.fitter.go(obs)


class PSFRunner(RunnerBase):
    def go(self, obs, set_result=True):
        if isinstance(obs, MultiBandObsList) or isinstance(obs, ObsList):
            return [self.go(o, set_result=set_result) for o in obs]
        if obs.has_psf():
            psf = obs.get_psf()
        else:
            psf = obs
        from . import hooks
        if 'psf_runner_go' in hooks:
            res = hooks['psf_runner_go'](self, psf)
        else:
            res = self.fitter.go(psf)
        if set_result:
            psf.meta['result'] = res
        return res
