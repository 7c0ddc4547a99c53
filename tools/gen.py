#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from tools/props.py"""
import json
import os
import sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from props import P                                    # noqa

with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['quant']},
            'why_tests_cant': p['why'],
            'anchors': {'files': p['files'],
                        'mechanism': [{'name': a, 'where': b}
                                      for a, b in p['mech']]}}) + '\n')
checks = [{'property': p['id'],
           'quick_cmd': 'python3 check.py %s quick' % p['id'],
           'thorough_cmd': 'python3 check.py %s thorough' % p['id'],
           'technique': p['technique'], 'level': 'other',
           'level_note': p['note']} for p in P if 'technique' in p]
doc = {'version': 1, 'setup_cmd': 'python3 -c "import ast, json"',
       'checks': checks,
       'not_applicable': [{'property': p['id'], 'reason': p['reason']}
                          for p in P if 'reason' in p]}
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(doc, f, indent=1)
    f.write('\n')

# ------------------------------------------------------- DESIGN.md, the tail
import glob                                            # noqa
from notes import N                                    # noqa
MARK = '<!-- below: written by tools/gen.py -->\n'
f = os.path.join(ROOT, 'DESIGN.md')
head = open(f).read().split(MARK)[0]
seeds = {}
for s in sorted(glob.glob(os.path.join(ROOT, 'seeded', '*', 'meta.json')) +
                glob.glob(os.path.join(ROOT, 'tools', 'planted', '*',
                                       'meta.json'))):
    m = json.load(open(s))
    seeds.setdefault(m['property'], []).append(
        (os.path.basename(os.path.dirname(s)), m))
fixed = {}
for k in json.load(open(os.path.join(ROOT, 'known_findings.json'))):
    fixed.setdefault(k['property'], []).append(k)
t = ['## Properties\n']
for p in P:
    if 'technique' not in p:
        continue
    what, oracle = N[p['id']]
    t.append('### %s %s\n' % (p['id'], p['title']))
    t.append('* analysed: %s.\n* oracle: %s.\n* bounds: %s; quantified %s.\n'
             '* beyond tests: %s.\n* source: %s.'
             % (what, oracle, p['note'], p['quant'], p['why'],
                ', '.join('`%s`' % x for x in p['files'])))
    for k in fixed.get(p['id'], []):
        t.append('* %s' % k['text'].replace('property=%s ' % p['id'], ''))
    for n, m in seeds.get(p['id'], []):
        t.append('* seeded change %s (caught): %s; needs %s.'
                 % (n, m['what_it_breaks'], m['needs']))
    t.append('')
t.append('## Not applicable\n')
for p in P:
    if 'reason' in p:
        t.append('* **%s %s**: %s' % (p['id'], p['title'], p['reason']))
t.append('')
with open(f, 'w') as o:
    o.write(head.rstrip() + '\n\n' + MARK + '\n'.join(t))
