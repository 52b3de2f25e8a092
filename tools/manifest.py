"""Generates MANIFEST.json from the rules that exist."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/rules')
import importlib
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
NA = {}
p = V + '/tools/na.json'
if os.path.exists(p): NA = json.load(open(p))
checks, na = [], []
for q in props:
    i = q['id']
    if i in NA: na.append({'property': i, 'reason': NA[i]}); continue
    f = V + '/rules/%s.py' % i.lower()
    if not os.path.exists(f):
        na.append({'property': i, 'reason': 'no check yet'}); continue
    m = importlib.import_module(i.lower())
    checks.append({'property': i, 'quick_cmd': './check %s quick' % i, 'thorough_cmd': './check %s thorough' % i,
                   'technique': 'static analysis over rustc MIR: ' + getattr(m, 'TECHNIQUE', 'path-sensitive dataflow (abstract interpretation)'),
                   'level': 'other', 'level_note': m.RULE[:1500]})
json.dump({'version': 1, 'setup_cmd': './check --setup', 'checks': checks, 'not_applicable': na}, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'n/a')
