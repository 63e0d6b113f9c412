"""the same code run several times in a row, with other data and settings:
nothing of the first run is left in the second"""
import copy
import importlib

NAMED = ('real', 'xreal', 'int', 'bool', 'bv', 'choose', 'arr_real',
         'arr_bv', 'arr_int', 'arr_bool', '_arr')
HOOKS = ('ngmix', 'sxdes', 'lsst')


class Part:
    """an environment with names of its own, that undoes what it patches"""

    def __init__(self, env, pre, rng):
        self.__dict__.update(_env=env, _pre=pre, _patched=[], _start={},
                             _rng=rng)
        for kind in ('rng_normal', 'rng_uniform'):
            self._start[kind] = len(env.draws(kind))

    def __getattr__(self, n):
        v = getattr(self._env, n)
        if n in NAMED:
            return lambda name, *a, **k: v(self._pre + name, *a, **k)
        return v

    def patch(self, modname, attr, value):
        m = self._env.mod(modname)
        self._patched.append((m, attr, m.__dict__.get(attr, self)))
        setattr(m, attr, value)

    def rng(self):
        """the same generator goes through all runs, if there is one"""
        if self._rng is None:
            return self._env.rng()
        if not self._rng:
            self._rng.append(self._env.rng())
        return self._rng[0]

    def draws(self, kind='rng_normal'):
        return self._env.draws(kind)[self._start.get(kind, 0):]

    def end(self):
        for m, attr, old in reversed(self._patched):
            if old is self:
                delattr(m, attr)
            else:
                setattr(m, attr, old)


def run(env, parts, rng='each'):
    """parts: [module, function, settings]; rng: each its own random number
    generator, or 'one' for all"""
    one = [] if rng == 'one' else None
    hooks = {}
    for k, (mod, func, cfg) in enumerate(parts):
        for n in HOOKS:
            try:
                h = env.mod(n).hooks
            except (ImportError, AttributeError):
                continue
            hooks.setdefault(n, dict(h))
            h.clear()
            h.update(hooks[n])
        hm = importlib.import_module('harness.' + mod)
        p = Part(env, 'abcdef'[k] + ':', one)
        try:
            getattr(hm, func)(p, **copy.deepcopy(cfg))
        finally:
            p.end()
