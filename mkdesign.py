#!/usr/bin/env python3
"""rewrites the generated part of DESIGN.md (contracts, engines, planted bugs, not applicable) from specs/, bounded/, hints.json, seeded/"""
import json, sys, os
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path[:0] = [HERE + '/vc', HERE + '/bounded']
import spec, engines
S = spec.load(HERE + '/specs'); H = json.load(open(HERE + '/vc/hints.json'))
out = ['<!-- generated by mkdesign.py -->', '## 5. Functions under contract', '', '| property | function | obligations (recorded) | trusted contracts used |', '|---|---|---|---|']
for k, s in sorted(S.items(), key=lambda x: (sorted(x[1]['props']), x[0])):
    out.append('| %s | `%s` (%s) | %s | %s |' % (', '.join(s['props']), k, ', '.join(s['files'][:1]), len(H.get(k, {}).get('goals', {})) or '-', ', '.join(sorted(s.get('extern', {}))) or '-'))
out += ['', 'Bounded stand-ins:', '', '| engine | properties | quick/thorough cases | what |', '|---|---|---|---|']
for e in engines.ENGINES.values(): out.append('| %s | %s | %d / %d | %s |' % (e.name, ' '.join(sorted(e.props)), e.n['quick'], e.n['thorough'], e.rule))
M = json.load(open(HERE + '/MANIFEST.json'))
out += ['', '## 6. Not applicable', ''] + ['* **%s**: %s' % (x['property'], x['reason']) for x in M['not_applicable']]
out += ['', '## 7. Planted bugs', '', '| bug | property | needs | caught by |', '|---|---|---|---|']
R = json.load(open(HERE + '/seeded.json')) if os.path.exists(HERE + '/seeded.json') else {}
for i in sorted(os.listdir(HERE + '/seeded')):
    m = json.load(open(HERE + '/seeded/%s/meta.json' % i)); out.append('| %s | %s | %s | %s |' % (i, m['property'], m['needs'], R.get(i, '')))
p = HERE + '/DESIGN.md'; t = open(p).read().split('<!-- generated by mkdesign.py -->')[0]
open(p, 'w').write(t + '\n'.join(out) + '\n')
