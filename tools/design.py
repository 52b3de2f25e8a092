#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design_head.md, properties.jsonl, the rule modules, known_findings.json and seeded/."""
import json, sys, os, importlib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/rules')
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
cost = json.load(open(V + '/tools/cost.json'))
na = json.load(open(V + '/tools/na.json')) if os.path.exists(V + '/tools/na.json') else {}
out = [open(V + '/tools/design_head.md').read().rstrip() + '\n']
out.append('\n## Properties: how each is decided\n')
for p in props:
    i = p['id']
    out.append('\n### %s %s\n' % (i, p['title']))
    try: m = importlib.import_module(i.lower())
    except ModuleNotFoundError:
        out.append('Not applicable: %s\n' % na.get(i, 'no check')); continue
    out.append('*Rule and oracle.* %s\n' % m.RULE)
    if getattr(m, 'TECHNIQUE', None): out.append('\n*Technique.* %s.\n' % m.TECHNIQUE.rstrip('.'))
    if getattr(m, 'BOUNDS', None): out.append('\n*Bounds.* %s\n' % m.BOUNDS)
    out.append('\n*Assumes.* %s.\n' % '; '.join(m.ASSUMPTIONS))
    if i in cost: out.append('\n*Cost.* about %s s, after the dump of the program (about 20 s, cached by content).\n' % cost[i])
    out.append('\n*Beyond tests.* %s\n' % (p['why_tests_cant']))
kf = json.load(open(V + '/known_findings.json'))['findings']
out.append('\n## Genuine defects found\n\nRepaired (one `fix:` commit each in /repo):\n\n')
for f in kf:
    if f['status'] == 'fixed': out.append('- %s\n' % f['what'].replace('fixed: ', '', 1))
out.append('\nKnown findings (recorded, not repaired; the check prints a KNOWN-FINDING line and stays at 0 for exactly these keys):\n\n')
for f in kf:
    if f['status'] == 'known': out.append('- %s `%s`: %s\n' % (f['property'], f['key'], f['what']))
out.append('\n' + open(V + '/tools/design_tail.md').read().rstrip() + '\n')
out.append('\n## Planted bugs\n\nEach was written from the property and the code alone, and confirmed (builds, stable tests pass, demo fails only with it).\n\n| bug | property | what it breaks | caught by |\n|---|---|---|---|\n')
caught = json.load(open(V + '/tools/caught.json'))
sd = V + '/seeded'
for d in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
    m = json.load(open('%s/%s/meta.json' % (sd, d)))
    out.append('| %s | %s | %s | %s |\n' % (d, m['property'], m['what_it_breaks'].replace('|', '\\|').replace('\n', ' '), ', '.join(caught.get(d, ['?']))))
open(V + '/DESIGN.md', 'w').write(''.join(out))
