#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl and the check table"""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H); sys.path.insert(0, os.path.join(H, 'sa'))
import check, rules
NA = {'C22': 'quantifies over floating-point rounding of predicates on degenerate inputs; no static argument in reach bounds that error (the code itself documents no exactness)',
      'C23': 'peak memory and wall-clock scaling are run-time quantities; no static argument here bounds them'}
TODO = {}
props = [json.loads(l) for l in open(os.path.join(H, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in NA: na.append({'property': i, 'reason': NA[i]}); continue
    u, r = check.UNITS.get(i), [n for n, f in rules.RULES.get(i, [])]
    if not u and not r: na.append({'property': i, 'reason': TODO[i]}); continue
    t = []
    if u: t.append('value-graph congruence (global value numbering) of compiler IR with a reference model')
    t += r
    checks.append({'property': i, 'quick_cmd': 'python3 check.py %s quick' % i, 'thorough_cmd': 'python3 check.py %s thorough' % i,
                   'technique': 'static analysis: ' + '; '.join(t), 'level': 'other',
                   'level_note': check.NOTE.get(i) or check.NOTE['*' if u else '-']})
m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': checks, 'not_applicable': na}
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
