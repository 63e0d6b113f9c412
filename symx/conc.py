"""
Replay worker: runs a harness on the real code with concrete inputs.
Reads one JSON request per line, writes one JSON reply per line.
"""
import importlib
import json
import os
import sys
import traceback
import types
import warnings

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, 'stubs', 'common'))
sys.dont_write_bytecode = True
warnings.simplefilter('ignore')

# the package without running its __init__ (ngmix is not installed)
md = types.ModuleType('metadetect')
md.__path__ = [os.path.join(REPO, 'metadetect')]
md.__version__ = 'replay'
sys.modules['metadetect'] = md


def run(req):
    from symx.env import ConcEnv
    import numpy
    hm = importlib.import_module('harness.' + req['module'])
    env = ConcEnv(req['model'], req['cfg'])
    exc = None
    tb = ''
    with numpy.errstate(all='ignore'):
        try:
            getattr(hm, req['func'])(env, **req['cfg'])
        except Exception as e:
            exc = type(e).__name__ + ': ' + str(e)[:300]
            tb = traceback.format_exc()[-2500:]
        finally:
            env.unpatch()
    obs = [[l, [None if v is None else
                (repr(v) if v != v or v in (float('inf'), -float('inf'))
                 else v) for v in vs]] for l, vs in env.obs]
    return {'results': env.results, 'exc': exc, 'tb': tb, 'obs': obs,
            'assume_failed': env.assume_failed}


def main():
    out = os.fdopen(os.dup(1), 'w')
    os.dup2(2, 1)
    for line in sys.stdin:
        req = json.loads(line)
        try:
            rep = run(req)
        except BaseException as e:
            rep = {'fatal': repr(e), 'tb': traceback.format_exc()[-2000:]}
        out.write(json.dumps(rep) + '\n')
        out.flush()


if __name__ == '__main__':
    if len(sys.argv) > 2 and sys.argv[1] == 'replay':
        req = json.load(open(sys.argv[2]))
        rep = run(req)
        bad = [l for l, ok in rep['results'] if not ok]
        print(json.dumps(rep, indent=1)[:6000])
        print('FAILED CHECKS:', bad, 'EXC:', rep['exc'])
        sys.exit(1 if bad or rep['exc'] else 0)
    main()
