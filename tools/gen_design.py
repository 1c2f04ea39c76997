#!/usr/bin/env python3
"""Writes DESIGN.md: design_head.md + one section per property (statement from properties.jsonl, bounds from checks.py) + design_tail.md."""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, R)
import checks
HOW = {}
exec(open(os.path.join(R, 'tools', 'design_how.py')).read())
out = [open(os.path.join(R, 'tools', 'design_head.md')).read().rstrip(), '', '## The properties one by one', '']
for l in open(os.path.join(R, 'properties.jsonl')):
    p = json.loads(l); c = checks.CHECKS.get(p['id'])
    out += ['### %s %s' % (p['id'], p['title']), '']
    if not c: out += ['Not applicable: ' + checks.NOT_APPLICABLE[p['id']], '']; continue
    h = HOW[p['id']]
    n = {t: len(list(c['shards'](t))) for t in ('quick', 'thorough')}
    out += ['*What is checked, against what:* ' + h[0], '', '*Bounds:* ' + c['bounds'] + '.', '', '*Outside:* ' + c['outside'] + '.', '',
            '*Why tests cannot reach it:* ' + h[2], '', '*Cost:* %s in the quick tier (%d shards; thorough: %d).' % (h[1], n['quick'], n['thorough']), '']
tail = open(os.path.join(R, 'tools', 'design_tail.md')).read().rstrip()
res = json.load(open(os.path.join(R, 'tools', 'seed_results.json')))
tab = ['| id | what it breaks | needs | check | caught |', '|---|---|---|---|---|']
for i in sorted(os.listdir(os.path.join(R, 'seeded'))):
    m = json.load(open(os.path.join(R, 'seeded', i, 'meta.json')))
    tab.append('| %s | %s | %s | %s | %s |' % (i, m['what_it_breaks'], m['needs'], m['property'], {True: 'yes', False: 'no', None: '?'}[res.get(i)]))
out += [tail.replace('SEEDTABLE', '\n'.join(tab)), '']
open(os.path.join(R, 'DESIGN.md'), 'w').write('\n'.join(out))
