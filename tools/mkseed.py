"""makes and confirms a planted bug (development only)

    python3 tools/mkseed.py ID PROPERTY FILE < spec.json

spec: {"needs", "what_it_breaks", "edits": [[file, old, new], ...]}; the
demonstration is seeded/ID/demo.py
"""
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/sh
cd "${PWD}" && PYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''
LOAD = '''import os, sys, types, warnings
import numpy as np
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'stubs'))
warnings.simplefilter('ignore')
np.seterr(all='ignore')
md = types.ModuleType('metadetect')
md.__path__ = [os.path.join(os.getcwd(), 'metadetect')]
md.__version__ = '0'
sys.modules['metadetect'] = md
'''


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def main(sid, prop):
    spec = json.load(sys.stdin)
    d = os.path.join(HERE, 'seeded', sid)
    wt = '/tmp/seedwt/' + sid
    shutil.rmtree(wt, ignore_errors=True)
    shutil.copytree('/repo', wt, symlinks=True)
    sh('git checkout -q -- .', cwd=wt)
    for f, old, new in spec['edits']:
        p = os.path.join(wt, f)
        s = open(p).read()
        assert s.count(old) == 1, (f, s.count(old), old)
        open(p, 'w').write(s.replace(old, new))
    diff = sh('git diff', cwd=wt).stdout
    assert diff
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.sh', 'w').write(SH)
    os.chmod(d + '/demo.sh', 0o755)
    open(d + '/mdload.py', 'w').write(LOAD)
    for lib in ('demolib', 'demolsst'):
        if 'import %s' % lib in open(d + '/demo.py').read():
            shutil.copy(os.path.join(HERE, 'tools', lib + '.py'), d)
    shutil.rmtree(d + '/stubs', ignore_errors=True)
    shutil.copytree(os.path.join(HERE, 'stubs', 'common'), d + '/stubs',
                    ignore=shutil.ignore_patterns('__pycache__'))
    json.dump({'property': prop, 'needs': spec['needs'],
               'what_it_breaks': spec['what_it_breaks']},
              open(d + '/meta.json', 'w'), indent=1)
    a = sh('sh %s/demo.sh' % d, cwd='/repo')
    b = sh('sh %s/demo.sh' % d, cwd=wt)
    sup = wt + '.support'
    os.makedirs(sup, exist_ok=True)
    open(sup + '/partial_metadetect.py', 'w').write(open(
        '/opt/vp/support/partial_metadetect.py').read().replace(
            'REPO = "/repo"', 'REPO = "%s"' % wt))
    t = sh('. /opt/vp/env.sh; export PYTHONPATH=%s; $PY' % sup + ' -m pytest -q -p partial_metadetect '
           '-p no:cacheprovider metadetect/tests/test_interpolate.py '
           'metadetect/lsst/tests/test_lsst_configs.py 2>&1 | tail -3',
           cwd=wt)
    c = sh('VERIF_REPO=%s python3-vt check.py %s 2>&1 | tail -4' % (wt, prop),
           cwd=HERE)
    print(sid, 'clean', a.returncode, 'bug', b.returncode,
          '' if a.returncode == 0 else a.stderr[-400:])
    if b.returncode == 0:
        print('NOT SHOWN')
    else:
        print(b.stderr.strip().split('\n')[-1][:200])
    print(t.stdout.strip().split('\n')[-1])
    print('caught' if 'VIOLATION' in c.stdout else 'MISSED', '|',
          c.stdout[-300:] if 'VIOLATION' not in c.stdout else
          [l for l in c.stdout.split('\n') if 'failed' in l])
    shutil.rmtree(wt, ignore_errors=True)
    shutil.rmtree(sup, ignore_errors=True)


main(*sys.argv[1:3])
