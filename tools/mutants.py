#!/usr/bin/env python3
"""mutants.py [CHECK...]: development regression of the checks.  Each entry of
tools/mutlist.py is an edit of the source with the expected outcome: 'bug'
(the check must report it) or 'same' (behaviour preserving: must be quiet).
Edits are made in scratch copies."""
import os
import runpy
import shutil
import subprocess
import sys
import tempfile
import warnings
from concurrent.futures import ThreadPoolExecutor
warnings.simplefilter('ignore')
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(e):
    check, file, edits, expect = e
    d = tempfile.mkdtemp(prefix='mutant')
    try:
        shutil.copytree('/repo/pyphs', d + '/pyphs',
                        ignore=shutil.ignore_patterns('__pycache__', '*.pyc',
                                                      '*.png', '*.pdf'))
        for old, new in edits:
            f = file
            if '::' in old:
                f, old = old.split('::', 1)
            p = os.path.join(d, f)
            s = open(p).read()
            if s.count(old) < 1:
                return e, 'EDIT-NOT-FOUND', repr(old)
            open(p, 'w').write(s.replace(old, new, 1))
            if p.endswith('.py'):
                compile(s.replace(old, new, 1), p, 'exec')
        r = subprocess.run(['python3', ROOT + '/check.py', check, 'quick'],
                           env=dict(os.environ, PYPHS_SA_REPO=d,
                                    SA_NOEV='1'),
                           capture_output=True, text=True)
        ls = r.stdout.splitlines()
        v = [l for l in ls if '  violated' in l or '  undecided' in l]
        v.sort(key=lambda l: '  undecided' in l)
        return e, r.returncode, (ls[0] if ls else r.stderr[-300:]) + (
            '\n          ' + v[0][:int(os.environ.get('W', 260))] if v
            else '')
    finally:
        shutil.rmtree(d)


if __name__ == '__main__':
    L = runpy.run_path(os.path.join(ROOT, 'tools', 'mutlist.py'))['L']
    sel = sys.argv[1:]
    L = [e for e in L if not sel or e[0] in sel]
    bad = 0
    with ThreadPoolExecutor(int(os.environ.get('J', 7))) as ex:
        for (check, file, edits, expect), code, txt in ex.map(one, L):
            ok = code == {'bug': 1, 'same': 0}.get(expect)
            bad += not ok
            if not ok or os.environ.get('V'):
                print('%s %s %s exit %s\n   %r -> %r\n      %s' % (
                    'ok  ' if ok else 'FAIL', check, expect, code,
                    edits[0][0][-120:], edits[0][1][-160:], txt))
    print('%d mutants, %d unexpected' % (len(L), bad))
