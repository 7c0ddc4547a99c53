#!/usr/bin/env python3
"""check.py ID [quick|thorough]: decide one property by static analysis."""
import importlib
import json
import os
import sys
import time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import threading                                              # noqa
threading.stack_size(512 * 1024 * 1024)
sys.setrecursionlimit(60000)


def known():
    out = []
    p = os.path.join(HERE, 'known_findings.json')
    if os.path.exists(p):
        with open(p) as f:
            out = json.load(f)
    return out


def main(prop, tier):
    t0 = time.time()
    from sa.report import Report
    from sa import rig
    rep = Report(prop, tier)
    mod = importlib.import_module('sa.rules.' + prop.lower())
    prog = rig.program()
    code = 0
    if prog.errors:
        for p, e in prog.errors:
            print('cannot parse %s: %s' % (p, e))
        code = 2
    mod.run(rep, tier)
    fns = sorted(str(f) for f in rep.visited
                 if not str(f).startswith('ref.'))
    n = {'holds': 0, 'violated': 0, 'undecided': 0}
    for o in rep.obs:
        n[o[2]] += 1
    kn = [k for k in known() if k.get('property') == prop and
          k.get('status') == 'known']
    viol, kf = [], []
    for rule, construct, verdict, detail in rep.obs:
        if verdict != 'violated':
            continue
        hit = [k for k in kn if k['rule'] == rule and
               k['construct'] == construct]
        (kf if hit else viol).append((rule, construct, detail,
                                      hit[0] if hit else None))
    print('%s %s: %d modules, %d functions interpreted, %d obligations '
          '(%d hold, %d violated, %d undecided)' % (
              prop, tier, prog.nrepo, len(fns), len(rep.obs),
              n['holds'], n['violated'], n['undecided']))
    for k in sorted(rep.counts):
        print('  %s: %d' % (k, rep.counts[k]))
    for rule, construct, verdict, detail in rep.obs:
        if verdict == 'undecided':
            print('  undecided %s [%s] %s' % (rule, construct, detail[:int(os.environ.get('SA_W', 300))]))
    seen = set()
    for rule, construct, detail, k in kf:
        if (rule, construct) not in seen:
            seen.add((rule, construct))
            print('KNOWN-FINDING: property=%s %s [%s] %s' % (
                prop, construct, rule, k.get('what', '')))
    ev = os.path.join(HERE, 'evidence')
    if os.environ.get('SA_NOEV'):         # development only: scratch output
        ev = '/tmp/sa_ev'
    if not os.path.isdir(ev):
        os.makedirs(ev)
    rpath = os.path.join(ev, prop + '.violations.txt')
    if viol:
        with open(rpath, 'w') as f:
            for rule, construct, detail, _ in viol:
                f.write('%s [%s]\n    %s\n' % (construct, rule, detail))
        for rule, construct, detail, _ in viol[:20]:
            print('  violated %s [%s]: %s' % (rule, construct, detail[:900]))
        print('VIOLATION property=%s replay=%s' % (prop, rpath))
        code = 1
    elif os.path.exists(rpath):
        os.remove(rpath)
    floor = getattr(mod, 'FLOOR', 0)
    for v in rep.vanished:
        print('  anchor vanished: %s' % v)
    if not viol and (rep.vanished or len(rep.obs) < floor):
        print('ANALYSIS-BROKEN property=%s obligations=%d floor=%d '
              'vanished=%d' % (prop, len(rep.obs), floor,
                               len(rep.vanished)))
        code = 2
    rules = {}
    for rule, construct, verdict, detail in rep.obs:
        r = rules.setdefault(rule, {'holds': 0, 'violated': 0,
                                    'undecided': 0})
        r[verdict] += 1
    doc = {
        'property': prop, 'tier': tier,
        'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
        'level': 'other',
        'coverage': {
            'explanation': getattr(mod, 'EXPLAIN', mod.__doc__ or prop),
            'obligations': len(rep.obs), 'holds': n['holds'],
            'violated': n['violated'], 'undecided': n['undecided'],
            'modules_parsed': prog.nrepo,
            'functions_interpreted': fns,
            'found': [{'rule': r, 'construct': c, 'detail': d[:1500]}
                      for r, c, d, _ in viol],
            'rules': rules, 'counts': rep.counts,
            'samples': ['%s @ %s: %s' % (o[0], o[1], o[2])
                        for o in rep.obs[:40]],
        },
        'wall_s': round(time.time() - t0, 3),
        'violations': len(viol),
        'assumptions': getattr(mod, 'ASSUME', []) + [
            'calls to sympy, numpy, h5py and other libraries are '
            'uninterpreted functions without side effects on their '
            'arguments unless modelled',
            'obligations listed as undecided raise no alarm'],
    }
    with open(os.path.join(ev, prop + '.json'), 'w') as f:
        json.dump(doc, f, indent=1, sort_keys=True)
    return code


if __name__ == '__main__':
    res = []

    def go():
        res.append(main(sys.argv[1], sys.argv[2] if len(sys.argv) > 2
                        else os.environ.get('VERIF_TIER', 'quick')))
    th = threading.Thread(target=go)
    th.start()
    th.join()
    sys.exit(res[0] if res else 3)
