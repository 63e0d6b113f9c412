from .observation import get_mb_obs


def bootstrap(obs, runner, psf_runner=None, ignore_failed_psf=True):
    from . import hooks
    if 'bootstrap' in hooks:
        return hooks['bootstrap'](obs, runner, psf_runner)
    if psf_runner is not None:
        psf_runner.go(get_mb_obs(obs))
    return runner.go(obs)
