#!/usr/bin/env python3
"""check.py PROPERTY: decides one property of /repo's current tree.
1. regenerates and discharges every proof obligation of the contracts tagged with the property (vc/, specs/);
2. runs the bounded stand-ins tagged with it (bounded/), which also serve as the search for a failing input when an obligation fails."""
import os, sys, json, time, re, hashlib, shutil, tempfile, random, traceback, signal
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'vc')); sys.path.insert(0, os.path.join(HERE, 'bounded'))
sys.dont_write_bytecode = True
from concurrent.futures import ThreadPoolExecutor, ProcessPoolExecutor, as_completed
import multiprocessing as mp

PROP = sys.argv[1]
TIER = os.environ.get('VERIF_TIER', 'quick')
if TIER not in ('quick', 'thorough'): TIER = 'quick'
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
EVID = os.path.join(HERE, 'evidence')
T0 = time.time()
LIMIT = 780 if TIER == 'quick' else 3 * 3600

KNOWN_FINDINGS = json.load(open(os.path.join(HERE, 'known_findings.json')))['findings']

# ------------------------------------------------------------------ bounded part
_ST = {}
def worker(engine, st, seed, idx, want, wd):
    """run a batch; returns list of (i, status, prop, what, files, cmd, note, nontrivial, known)"""
    import engines
    E = engines.ENGINES[engine]
    out = []
    d = os.path.join(wd, 'w%d' % os.getpid()); os.makedirs(d, exist_ok=True)
    for i in idx:
        C = engines.Case()
        try:
            for attempt in (0, 1):
                C = engines.Case()
                try: E.case(st, '%s-%s' % (seed, E.name), i, want, d, C)
                except Exception as e:
                    if attempt == 0 and 'TimeoutExpired' in type(e).__name__: continue
                    raise
                break
            out.append((i, 'ok', None, None, None, C.cmd, C.note, C.nontrivial, C.known, hashlib.md5(repr(sorted((k, v) for k, v in C.files.items() if k in ('g.y', 'input'))).encode()).hexdigest()[:12]))
        except engines.Mismatch as e:
            out.append((i, 'bad', e.prop, e.what, C.files, C.cmd, C.note, True, {}, ''))
        except Exception as e:
            tb = traceback.format_exc(limit=-3)
            what = 'does not terminate' if 'TimeoutExpired' in type(e).__name__ else 'output cannot be interpreted: %r' % e
            out.append((i, 'bad', '*', what + '\n' + tb, C.files, C.cmd, C.note, True, {}, ''))
        if out[-1][1] == 'bad': break
    return out

def bounded(prop, wd, factor=1, names=None, deadline=None):
    import engines
    res = {'evaluations': 0, 'distinct': set(), 'nontrivial': 0, 'samples': [], 'rules': [], 'engines': {}, 'known': {}, 'notes': []}
    viol = None
    es = [e for e in engines.ENGINES.values() if prop in e.props and (names is None or e.name in names)]
    for E in es:
        n = int(E.n[TIER] * factor)
        try: st = E.setup(wd)
        except Exception as e:
            res['notes'].append('%s: not built: %s' % (E.name, str(e)[-400:])); continue
        t = time.time(); cnt = 0
        seed = SEED if factor == 1 else SEED + 1000003
        with ProcessPoolExecutor(8, mp_context=mp.get_context('fork')) as pool:
            fs = [pool.submit(worker, E.name, st, seed, range(a, min(a + E.batch, n)), [prop], wd) for a in range(0, n, E.batch)]
            bads = []
            for f in as_completed(fs):
                if f.cancelled(): continue
                try: rs = f.result()
                except Exception as e:
                    res['notes'].append('%s: worker lost: %r' % (E.name, e)); continue
                for (i, status, p, what, files, cmd, note, nt, known, h) in rs:
                    cnt += 1
                    if status == 'bad':
                        bads.append((i, p, what, files, cmd, note))
                    else:
                        if nt and h not in res['distinct']:
                            res['distinct'].add(h); res['nontrivial'] += 1
                        if len(res['samples']) < 4 or (i % 997 == 0 and len(res['samples']) < 8): res['samples'].append('%s case %d: %s (%s)' % (E.name, i, note, cmd))
                        for k, v in (known or {}).items(): res['known'][k] = res['known'].get(k, 0) + v
                if bads or (deadline and time.time() > deadline):
                    for g in fs: g.cancel()
        if bads:
            bads.sort(key=lambda b: len(b[3].get('g.y', b[3].get('input', ''))) if b[3] else 0)
            viol = (E.name,) + bads[0]
        res['evaluations'] += cnt; res['rules'].append('%s: %s' % (E.name, E.rule)); res['engines'][E.name] = {'cases': cnt, 'seconds': round(time.time() - t, 1)}
        if viol: break
    return res, viol

# ------------------------------------------------------------------ proof part
def proofs(prop, wd):
    import engine
    hints = {}
    hp = os.path.join(HERE, 'vc', 'hints.json')
    if os.path.exists(hp): hints = json.load(open(hp))
    keys = [k for k, s in engine.specs().items() if prop in s['props']]
    # contracts of callees are assumed at call sites: their own obligations belong to the property as well
    dl = T0 + (300 if TIER == 'quick' else 1500)
    pool = ThreadPoolExecutor(8); outer = ThreadPoolExecutor(8)
    fs = {k: outer.submit(engine.prove, k, pool, wd, hints.get(k, {}).get('goals'), 25, None, hints.get(k, {}).get('sha'), dl) for k in keys}
    rs = {}
    while fs:
        new = {k: f.result() for k, f in fs.items()}; rs.update(new)
        callees = {c for r in new.values() for c in (r.info or {}).get('callees', [])} - set(keys)
        fs = {k: outer.submit(engine.prove, k, pool, wd, hints.get(k, {}).get('goals'), 25, None, hints.get(k, {}).get('sha'), dl) for k in sorted(callees)}
        keys += sorted(callees)
    libs = sorted({x for k in keys for x in engine.lib_of(k)})
    fs = {}
    for x in libs: fs['lib:' + x] = outer.submit(engine.prove_lib, x, pool, wd, hints.get('lib:' + x, {}).get('goals'), 25)
    rs.update({k: f.result() for k, f in fs.items()})
    base = {k: h.get('sha') for k, h in hints.items()}
    # an obligation generated from unchanged text that is not discharged (loaded machine): try again with more time
    for k, r in rs.items():
        r.unchanged = bool(getattr(r, 'sha', None)) and r.sha == base.get(k)
        if r.status == 'failed':
            for g in r.goals:
                if not g['ok'] and g.get('file') and r.unchanged:
                    for s in ('cvc5', 'z3e', 'z3ne', 'cvc5f', 'z3'):
                        o, t = engine.solve(g['file'], s, 60); g['time'] += t
                        if o == 'unsat': g['ok'] = True; g['solver'] = s; break
            if all(g['ok'] for g in r.goals): r.status = 'ok'
    return keys, rs

def axioms(wd):
    import axcheck
    return axcheck.run(wd)

def write_replay(prop, name, data, files):
    d = os.path.join(EVID, 'replay', prop)
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    for k, v in (files or {}).items():
        with open(os.path.join(d, k), 'w', errors='replace') as f: f.write(v if isinstance(v, str) else v.decode('latin1'))
    p = os.path.join(d, name)
    open(p, 'w').write(data)
    return p

def main():
    os.makedirs(EVID, exist_ok=True)
    man = {c['property']: c for c in json.load(open(os.path.join(HERE, 'MANIFEST.json')))['checks']}
    level = man.get(PROP, {}).get('level', 'proof')
    wd = tempfile.mkdtemp(prefix='vcheck-%s-' % PROP)
    code = 0; lines = []
    try:
        keys, rs = proofs(PROP, os.path.join(wd, 'vc'))
        ax = axioms(os.path.join(wd, 'ax')) if keys else {'n': 0, 'ok': 0, 'failed': []}
        failed = []; undis = []; broken = []
        nob = ax['n']; ndis = ax['ok']; tsolve = 0.0; by = {}; vac = 0
        fns = []; libs = []
        for k, r in rs.items():
            if r.status == 'extraction': broken.append((k, r.err)); continue
            real = [g for g in r.goals if not g['name'].startswith('VACUITY')]
            for g in r.goals:
                tsolve += g['time']
                if g['name'].startswith('VACUITY'):
                    vac += 1
                    if not g['ok']: broken.append((k, 'vacuous: %s' % g['name']))
                    continue
                nob += 1
                if g['ok']: ndis += 1; by[g['solver']] = by.get(g['solver'], 0) + 1
                elif r.unchanged: undis.append((k, g))
                else: failed.append((k, g))
            if k.startswith('lib:'):
                if real: libs.append({'lemmas of': k[4:], 'obligations': len(real), 'discharged': sum(g['ok'] for g in real)})
                continue
            fns.append({'function': k, 'obligations': len(real), 'discharged': sum(g['ok'] for g in real), 'inlined': r.info.get('inlined', []), 'callee_contracts': r.info.get('callees', []), 'termination': 'not proved' if r.info.get('diverges') else 'proved'})
        res, viol = bounded(PROP, wd)
        why = None
        if viol is None and (failed or broken):
            # the proof no longer goes through: search harder for an input that shows it
            res2, viol = bounded(PROP, wd, factor=4 if TIER == 'quick' else 2, deadline=T0 + 0.75 * LIMIT)
            res['evaluations'] += res2['evaluations']; res['nontrivial'] += res2['nontrivial']; res['notes'] += res2['notes']
        if viol:
            eng, i, p, what, files, cmd, note = viol
            txt = 'property %s\nengine %s, case %d, seed %d\ncommand: %s\nwhat failed: %s\n' % (PROP, eng, i, SEED, cmd, what)
            for k, g in failed: txt += 'failed obligation: %s / %s (%s)\n' % (k, g['name'], g['answer'])
            txt += 'the input and outputs of the failing run are beside this file; rerun: cd /verif && VERIF_SEED=%d python3 check.py %s\n' % (SEED, PROP)
            rp = write_replay(PROP, 'replay.txt', txt, files)
            lines.append('violation: %s' % what.split('\n')[0])
            lines.append('VIOLATION property=%s replay=%s' % (PROP, rp)); code = 1
        elif failed:
            txt = 'property %s\n' % PROP; files = {}
            for k, g in failed:
                txt += 'obligation not discharged: function %s, goal "%s", solver answers: %s\n' % (k, g['name'], g['answer'])
                try: files['%s-%s.smt2' % (k, re.sub(r'\W+', '_', g['name'])[:60])] = open(g['file']).read()
                except OSError: pass
            txt += 'every obligation of these functions was discharged for the recorded source; the generated verification conditions are beside this file\n'
            rp = write_replay(PROP, 'obligation.txt', txt, files)
            for k, g in failed[:10]: lines.append('obligation failed: %s: %s' % (k, g['name']))
            lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (PROP, rp)); code = 1
        for f in KNOWN_FINDINGS:
            if f['property'] == PROP and f['status'] == 'open':
                print('KNOWN-FINDING: property=%s %s' % (PROP, f['what']))
        import engine
        cov = {'obligations': nob, 'discharged': ndis, 'checker_cmd': 'python3 /verif/check.py %s (vc/engine.py: clang AST -> WhyML -> why3 split_vc -> cvc5/z3)' % PROP,
               'trusted_base': ['clang 18 AST', 'vc/c2why.py (translation of C to WhyML)', 'why3 1.6 VC generation', 'z3 4.8.12 / z3-new / cvc5 1.1.2'],
               'functions_under_contract': fns, 'lemma_libraries': libs, 'obligations_by_solver': by, 'solver_seconds': round(tsolve, 1), 'vacuity_probes': vac,
               'axioms_checked': ax['ok'], 'undischarged_on_unchanged_text': ['%s: %s' % (k, g['name']) for k, g in undis],
               'not_translated_this_run': ['%s: %s' % (k, e) for k, e in broken], 'failed': ['%s: %s' % (k, g['name']) for k, g in failed],
               'bounded': {'label': 'bounded: sampled inputs, not proved', 'engines': res['engines'], 'notes': res['notes']},
               'evaluations': res['evaluations'], 'distinct_nontrivial': res['nontrivial'], 'rule': ' | '.join(res['rules']) or 'none', 'samples': res['samples'] or ['none']}
        ass = ['integers are mathematical: no machine overflow is modelled except 64-bit bit-set words', 'memory is typed and split by field and element type: no aliasing through casts or unions; allocation returns fresh storage',
               'callees without a contract are inlined; library functions have the trusted contracts of vc/c2why.py', 'partial correctness where termination is "not proved"']
        ass += sorted({'trusted contract: ' + x for k in keys for x in engine.specs()[k].get('extern', {})})
        ev = {'property': PROP, 'tier': TIER, 'seed': SEED, 'level': level, 'coverage': cov, 'assumptions': ass, 'wall_s': round(time.time() - T0, 1), 'violations': code}
        json.dump(ev, open(os.path.join(EVID, PROP + '.json'), 'w'), indent=1)
        print('%s: %d/%d obligations discharged over %d functions; %d bounded cases; %.0f s' % (PROP, ndis, nob, len(fns), res['evaluations'], time.time() - T0))
        for k, e in broken: print('note: not verified this run: %s: %s' % (k, (e or '').split('\n')[0][:200]))
        for k, g in undis: print('note: undischarged on unchanged text: %s: %s' % (k, g['name']))
        for l in res['notes']: print('note:', l.split('\n')[0][:300])
        for l in lines: print(l)
    finally:
        shutil.rmtree(wd, ignore_errors=True)
    sys.stdout.flush()
    os._exit(code)

if __name__ == '__main__': main()
