"""
Confirms planted bugs in scratch copies and runs the checks against them.
usage: plant.py [--notests] [--checks own|all|none] [ID...]
"""
import json, os, shutil, subprocess, sys, argparse, re
from concurrent.futures import ThreadPoolExecutor
V = '/verif'
S = V + '/seeded'
ENV = dict(os.environ, MPLBACKEND='Agg', MPLCONFIGDIR='/opt/venv/mplconfig', PYTHONHASHSEED='0',
           PYTHONDONTWRITEBYTECODE='1', PYTHONPYCACHEPREFIX='/opt/venv/no-pycache',
           OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
ap = argparse.ArgumentParser()
ap.add_argument('--notests', action='store_true')
ap.add_argument('--checks', default='own')
ap.add_argument('-j', type=int, default=4)
ap.add_argument('ids', nargs='*')
A = ap.parse_args()
manifest = [c['property'] for c in json.load(open(V + '/MANIFEST.json'))['checks']]


def sh(cmd, cwd, t=900, **env):
    try:
        r = subprocess.run(cmd, cwd=cwd, env=dict(ENV, **env), shell=True, text=True,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return 'timeout', ''


def one(i):
    d = '/tmp/plant/' + i
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree('/repo', d + '/repo', symlinks=True)
    shutil.copytree(S + '/' + i, d + '/demo')
    r = d + '/repo'
    out = []
    meta = json.load(open(S + '/' + i + '/meta.json'))
    c, o = sh('bash ../demo/demo.sh', r, 300, PYTHONPATH=r)
    if c != 0:
        out.append('DEMO FAILS UNCHANGED: ' + o[-800:])
    c, o = sh('git apply {}/{}/patch.diff'.format(S, i), r)
    if c != 0:
        return i, ['PATCH DOES NOT APPLY ' + o]
    c, o = sh('bash ../demo/demo.sh', r, 300, PYTHONPATH=r)
    if c == 0:
        out.append('DEMO PASSES WITH PATCH')
    if not A.notests:
        c, o = sh('/opt/venv/bin/python -m pytest -q -p no:cacheprovider -p no:xdist '
                  '--timeout=200 -o junit_family=xunit2 --junitxml={0}/junit.xml; '
                  '/opt/venv/bin/python /opt/vp/results.py {0}/x.json junit:{0}/junit.xml'.format(d), r,
                  PYTHONPATH=r)
        x = json.load(open(d + '/x.json'))
        p = x.get('passed') or [k for k, v in x.get('tests', {}).items() if v == 'passed']
        miss = stable - set(p)
        if miss:
            out.append('TESTS FAIL: {}'.format(sorted(miss)[:6]))
    props = {'own': [meta['property']], 'all': manifest, 'none': []}[A.checks] \
        if A.checks in ('own', 'all', 'none') else A.checks.split(',')
    for q in props:
        if q not in manifest:
            out.append('(no check {})'.format(q)); continue
        c, o = sh('./check ' + q, V, 900, MC_REPO=r, MC_OUT=d, MC_JOBS='4')
        v = re.findall(r'VIOLATION.*', o)
        keys = re.findall(r'^-- .*', o, re.M)
        if c == 1 and v:
            out.append('caught by {} {}'.format(q, keys[:2]))
        elif c != 0:
            out.append('check {} exit {}: {}'.format(q, c, o[-500:]))
        elif q == meta['property']:
            out.append('MISSED by ' + q)
    shutil.rmtree(d, ignore_errors=True)
    return i, out


ids = A.ids or sorted(os.listdir(S))
with ThreadPoolExecutor(A.j) as ex:
    for i, out in ex.map(one, ids):
        print(i, '|', '; '.join(out), flush=True)
