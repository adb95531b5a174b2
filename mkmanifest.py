#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl, specs/ and the engine registry"""
import json, sys, os
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path[:0] = [HERE + '/vc', HERE + '/bounded']
import spec, engines
S = spec.load(HERE + '/specs')
NA = {}
if os.path.exists(HERE + '/na.json'): NA = json.load(open(HERE + '/na.json'))
checks = []; na = []
for l in open(HERE + '/properties.jsonl'):
    p = json.loads(l); i = p['id']
    fns = [k for k, s in S.items() if i in s['props']]
    es = [e.name for e in engines.ENGINES.values() if i in e.props]
    if i in NA or not fns:
        na.append({'property': i, 'reason': NA.get(i, 'no contract discharged yet for the functions this property depends on')}); continue
    checks.append({'property': i, 'quick_cmd': 'python3 check.py %s' % i, 'thorough_cmd': 'VERIF_TIER=thorough python3 check.py %s' % i,
      'technique': 'contracts on the real functions, obligations regenerated and discharged by SMT (Why3, z3, cvc5)' + (' + bounded end-to-end stand-in for functions out of reach' if es else ''),
      'level': 'proof',
      'level_note': 'Proved for all inputs: the contracts of %s. Everything else the property depends on is covered by the bounded stand-in only (%s; sampled inputs, not proved). Trusted: clang AST, the C-to-WhyML translation, Why3, SMT solvers; mathematical integers; no aliasing across types.' % (', '.join(fns), ', '.join(es) or 'none')})
json.dump({'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na, 'notes': 'see DESIGN.md'}, open(HERE + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'n/a')
