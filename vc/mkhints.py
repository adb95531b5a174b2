#!/usr/bin/env python3
"""Records, for the current tree, the hash of each generated obligation text and the solver that discharged each goal: vc/hints.json.
python3 mkhints.py [KEY...]   (only keys whose obligations are all discharged are recorded)"""
import sys, os, json, shutil
from concurrent.futures import ThreadPoolExecutor
import engine
HP = os.path.join(engine.HERE, 'hints.json')
h = json.load(open(HP)) if os.path.exists(HP) else {}
allk = list(engine.specs()) + sorted({'lib:' + x for k in engine.specs() for x in engine.lib_of(k)})
keys = sys.argv[1:] or allk
for k in list(h):
    if k not in allk: del h[k]
pool = ThreadPoolExecutor(8)
for k in keys:
    wd = '/tmp/w/hints'; shutil.rmtree(wd, ignore_errors=True)
    old = h.get(k, {}).get('goals')
    r = engine.prove(k, pool, wd, old) if not k.startswith('lib:') else engine.prove_lib(k[4:], pool, wd, old)
    if r.status != 'ok': print(k, r.status, r.err, [g['name'] for g in r.goals if not g['ok']]); continue
    h[k] = {'sha': r.sha, 'goals': {g['name']: g['solver'] for g in r.goals if g['solver'] and '/' not in g['solver'] and g['solver'] != 'cvc5'}}
    print(k, 'ok', len(r.goals), '%.1fs' % r.wall)
json.dump(h, open(HP, 'w'), indent=0, sort_keys=True)
