#!/usr/bin/env python3
"""seed.py SPEC.py [ID...] : development tool.  SPEC.py defines SEEDS, a list
of dicts (id, prop, file, edits=[(old, new)...], demo, needs, breaks).  For
each: makes the patch in a scratch copy of /repo, confirms that the demo
passes without it and fails with it and that the stable tests pass with it,
runs the property's check on the copy, and writes seeded/<id>/."""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
ENV = dict(os.environ, HOME='/root', LANG='C.UTF-8', PYTHONHASHSEED='0',
           MPLBACKEND='Agg', PYTHONDONTWRITEBYTECODE='1',
           OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1',
           PYTHONWARNINGS='ignore')
DEMO = '''#!/bin/bash
# cwd: the repository
HERE=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONHASHSEED=0
export PYTHONPATH="$PWD:$PYTHONPATH"
cd "$W"
timeout 250 /opt/venv/bin/python -W ignore "$HERE/demo.py"
'''


def demo(d, cwd):
    e = dict(ENV)
    e.pop('PYTHONPATH', None)
    return subprocess.run(['bash', d + '/demo.sh'], cwd=cwd, env=e,
                          capture_output=True, text=True)


def stable(copy):
    w = tempfile.mkdtemp(prefix='seedt')
    e = dict(ENV, PYTHONPATH=copy, PYTHONPYCACHEPREFIX=w + '/pyc', HOME=w)
    subprocess.run([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider',
                    '--timeout=300', '--continue-on-collection-errors',
                    '-o', 'junit_family=xunit2', '--junitxml=' + w + '/j.xml',
                    'pyphs/tests/test_cases.py'], cwd=copy, env=e,
                   capture_output=True, text=True)
    subprocess.run(['python3', '/opt/vp/results.py', w + '/o.json',
                    'junit:' + w + '/j.xml'], cwd=copy, capture_output=True)
    try:
        o = json.load(open(w + '/o.json'))
    except Exception as x:
        return ['no result %s' % x]
    base = json.load(open('/opt/vp/BASELINE.json'))
    shutil.rmtree(w)
    b = base.get('passed') or base.get('stable') or base
    b = b if isinstance(b, list) else list(b)
    got = o.get('passed') or o.get('pass') or []
    return [t for t in b if t not in got]


def one(s):
    out = []
    w = tempfile.mkdtemp(prefix='seed')
    try:
        c = w + '/repo'
        subprocess.run(['cp', '-a', '/repo', c], check=True)
        d = os.path.join(ROOT, 'seeded', s['id'])
        if not os.path.isdir(d):
            os.makedirs(d)
        with open(d + '/demo.py', 'w') as f:
            f.write(s['demo'].lstrip('\n'))
        with open(d + '/demo.sh', 'w') as f:
            f.write(DEMO)
        os.chmod(d + '/demo.sh', 0o755)
        r = demo(d, c)
        if r.returncode != 0:
            out.append('DEMO FAILS ON CLEAN TREE: ' + r.stderr[-600:])
        for file, old, new in s['edits']:
            p = os.path.join(c, file)
            t = open(p).read()
            if t.count(old) != 1:
                return s['id'], ['edit matches %d times: %r' % (
                    t.count(old), old)]
            open(p, 'w').write(t.replace(old, new))
        diff = subprocess.run(['git', 'diff'], cwd=c, capture_output=True,
                              text=True).stdout
        with open(d + '/patch.diff', 'w') as f:
            f.write(diff)
        with open(d + '/meta.json', 'w') as f:
            json.dump({'property': s['prop'], 'needs': s['needs'],
                       'what_it_breaks': s['breaks']}, f, indent=1)
            f.write('\n')
        r = demo(d, c)
        if r.returncode == 0:
            out.append('DEMO PASSES WITH THE PATCH')
        else:
            out.append('demo: ' + (r.stderr.strip().splitlines() or ['?'])[-1])
        r = subprocess.run(['python3', ROOT + '/check.py', s['prop'],
                            'quick'], capture_output=True, text=True,
                           env=dict(os.environ, PYPHS_SA_REPO=c,
                                    SA_NOEV='1'))
        v = [l for l in r.stdout.splitlines() if '  violated' in l]
        out.append('check exit %d %s' % (r.returncode, v[0][:200] if v
                                         else ''))
        if not os.environ.get('NOTESTS'):
            miss = stable(c)
            out.append('tests: ' + ('all stable pass' if not miss else
                                    'BROKEN %s' % miss[:5]))
    finally:
        shutil.rmtree(w)
    return s['id'], out


if __name__ == '__main__':
    seeds = runpy.run_path(sys.argv[1])['SEEDS']
    ids = sys.argv[2:]
    todo = [s for s in seeds if not ids or s['id'] in ids]
    with ThreadPoolExecutor(6) as ex:
        for i, o in ex.map(one, todo):
            print(i)
            for l in o:
                print('   ', l)
            sys.stdout.flush()
