"""Assembles WhyML modules from extracted functions + contracts, lets Why3 generate the VCs, discharges them with SMT solvers."""
import os, re, subprocess, sys, time, json, hashlib, tempfile, shutil, threading
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from cast import TU, Unsupported
from c2why import Fn, why_t, san
import spec as specmod

REPO = os.environ.get('VERIF_REPO', '/repo')
FLAGS = {'byacc': ['-I%s/byacc' % REPO, '-DHAVE_CONFIG_H', '-DYYBTYACC=1'],
         'lemon': []}
_tus = {}
_lock = threading.Lock()
def tu(path):
    with _lock:
        if path not in _tus:
            d = path.split('/')[0]
            if d == 'gen':
                import gen
                try: full = gen.generate(path.split('/')[1][:-2], REPO)
                except Exception as e: raise Unsupported('no generated parser: %s' % e)
            else: full = path if path.startswith('/') else os.path.join(REPO, path)
            _tus[path] = TU(full, FLAGS.get(d, []))
        return _tus[path]

SPECS = None
def specs():
    global SPECS
    if SPECS is None: SPECS = specmod.load(os.path.join(os.path.dirname(HERE), 'specs'))
    return SPECS

class Result:
    def __init__(self, fn): self.fn = fn; self.status = None; self.goals = []; self.err = None; self.info = {}

def build(key):
    """WhyML text for one contracted function"""
    sp = dict(specs()[key])
    tus = [tu(p) for p in sp['files']]
    f = Fn(tus, sp['fn'], sp, specs())
    body = f.translate()
    # register globals mentioned only in the contract
    txt = ''
    for nm, t in sp['requires'] + sp['ensures']: f.used_globals_in(t)
    for k, l in sp['loops'].items():
        for nm, t in l.get('inv', []): f.used_globals_in(t)
    for k, cs in sp['hooks'].items():
        for c in cs: f.used_globals_in(c)
    for g in sp.get('consts', {}):
        if g in {e[1] for e in f.effects if e[0] == 'glob'}: raise Unsupported('write to a field assumed constant')
        f.base_type(g)
    req = [(nm, f.pp(t)) for nm, t in sp['requires']] + [('constant ' + g, '%s = %s' % (g, v)) for g, v in sp.get('consts', {}).items()]
    ens = [(nm, f.pp(t)) for nm, t in sp['ensures']]
    unused = [k for k in sp['hooks'] if k not in f.uses_hooks and k[0] not in ('exit',)]
    missing = [k for k in sp['loops'] if k > f.loopn]
    if missing or unused: raise Unsupported('annotations do not attach: loops %s hooks %s (function has %d loops)' % (missing, unused, f.loopn))
    if f.loopn != int(sp.get('nloops', f.loopn)) : raise Unsupported('loop structure changed')
    ghosts = '\n'.join(f.pp(g) for g in sp.get('ghost', []))
    out = ['module M', ' use int.Int', ' use map.Map', ' use ref.Ref', ' use clib.CDiv', ' use clib.CMem']
    logic = sp['logic']
    alltext = body + logic + str(req) + str(ens) + str(f.vals) + str(f.heaps)
    if re.search(r'\bword\b|\bw(bit|zero|one|or|and|nz)\b|\brbit\b', alltext): out.append(' use clib.CWord')
    if re.search(r'\b(band|bor|bxor|cshl)\b', alltext): out.append(' use clib.CBits')
    if re.search(r'\b(slen|scmp|isstr|streq|dlen|dchr|sncmp|streqn)\b', alltext): out.append(' use clib.CStr')
    if re.search(r'\b[us]ch\b', alltext): out.append(' use clib.CChar')
    if re.search(r'\bct_', alltext): out.append(' use clib.CType')
    uses = list(sp.get('uses', []))
    def addu(f, seen=set()):
        for c in f:
            for u in specs()[c].get('uses', []):
                if u not in uses: uses.append(u)
    addu(set(f.called_contract))
    for u in uses: out.append(' use ' + u)
    for g, t in sorted(f.globs.items()): out.append(' val ref %s : %s' % (g, t))
    for h, t in sorted(f.heaps.items()): out.append(' val ref %s : map int %s' % (h, t))
    out.append(f.pp('\n'.join(l for l in logic.split('\n') if not l.startswith('use '))))
    out += [' ' + v for v in f.vals]
    ps = ' '.join('(%s: %s)' % p for p in f.params_why) or '()'
    rt = 'unit' if f.ret_ct[0] == 'void' else why_t(f.ret_ct)
    out.append(' let %sf_%s %s : %s' % ('rec ' if f.recursive else '', sp['fn'], ps, rt))
    for nm, t in req: out.append('   requires { [@expl:requires %s] %s }' % (nm, t))
    for nm, t in ens: out.append('   ensures { [@expl:ensures %s] %s }' % (nm, t))
    if f.recursive and sp.get('variant_'): out.append('   variant { %s }' % f.pp(sp['variant_']))
    elif f.recursive: f.diverges = True
    if f.diverges: out.append('   diverges')
    sp_ = sp.get('sp', True)
    out.append(' = %scheck { [@expl:VACUITY entry] false };' % ('[@vc:sp] (' if sp_ else ''))
    if ghosts: out.append(ghosts)
    out.append(body + (')' if sp_ else ''))
    out.append('end')
    # program-level div/mod
    text = '\n'.join(out) + '\n'
    info = {'loops': f.loopn, 'inlined': sorted(set(f.inlined)), 'callees': sorted(set(f.called_contract)), 'diverges': f.diverges}
    return text, info

SOLVERS = {
 'cvc5': lambda f, t: ['cvc5', '--tlimit=%d' % (t * 1000), f],
 'cvc5f': lambda f, t: ['cvc5', '--full-saturate-quant', '--tlimit=%d' % (t * 1000), f],
 'z3': lambda f, t: ['z3', '-T:%d' % t, 'smt.random_seed=42', f],
 'z3n': lambda f, t: ['z3-new', '-T:%d' % t, f],
 'z3e': lambda f, t: ['z3', '-T:%d' % t, 'smt.auto_config=false', 'smt.mbqi=false', f],
 'z3ne': lambda f, t: ['z3-new', '-T:%d' % t, 'smt.auto_config=false', 'smt.mbqi=false', f],
}

def solve(f, solver, t):
    t0 = time.time()
    try:
        p = subprocess.run(SOLVERS[solver](f, t), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=t + 5)
        o = p.stdout.decode(errors='replace').strip().split('\n')[0]
    except subprocess.TimeoutExpired: o = 'timeout'
    return o, time.time() - t0

CONF = '''[main]
magic = 14
memlimit = 4000
timelimit = 1000.0
running_provers_max = 1
[prover]
command = "%s/dump.sh %%f"
driver = "%s/vc.drv"
editor = ""
in_place = false
interactive = false
name = "Dump"
shortcut = "dump"
version = "1"
'''

def vcs(text, workdir):
    os.makedirs(workdir, exist_ok=True)
    mlw = os.path.join(workdir, 'm.mlw'); open(mlw, 'w').write(text)
    conf = os.path.join(workdir, 'why3.conf'); open(conf, 'w').write(CONF % (HERE, HERE))
    dump = os.path.join(workdir, 'vc'); shutil.rmtree(dump, ignore_errors=True); os.makedirs(dump, exist_ok=True)
    env = dict(os.environ, VCDUMP=dump)
    p = subprocess.run(['why3', '-C', conf, 'prove', '-L', HERE, '-L', os.path.join(os.path.dirname(HERE), 'specs'), mlw, '-a', 'split_vc', '-P', 'dump'], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env)
    out = p.stdout.decode(); err = p.stderr.decode()
    names = [re.sub(r'\s+', ' ', m.group(1) or m.group(2)) for m in re.finditer(r'^(?:Sub-goal ((?:.|\n)*?)\s+of\s+goal\s+\S+|Goal\s+(\S+))\.\nProver result', out, re.M)]
    files = sorted(x for x in os.listdir(dump) if x.endswith('.smt2'))
    if len(names) != len(files): raise Unsupported('why3: ' + (err or out)[-1500:])
    if not files: raise Unsupported('why3: no goals: ' + err[-1500:])
    return [(n, os.path.join(dump, f)) for n, f in zip(names, files)]

STAGES = [(2, ['cvc5', 'z3e']), (6, ['z3', 'z3ne', 'cvc5f']), (25, ['cvc5', 'z3e', 'z3n', 'cvc5f', 'z3'])]

class Effort:
    """how much solver time a changed function may cost: everything until the deadline, short attempts once several obligations were given up"""
    def __init__(self, deadline=None): self.deadline = deadline; self.lost = 0
    def limit(self, t):
        if self.deadline is None: return t
        if self.lost >= 6: t = min(t, 4)
        return int(max(0, min(t, self.deadline - time.time())))

def discharge(name, path, hint=None, tmax=25, effort=None):
    effort = effort or Effort()
    vac = name.startswith('VACUITY')
    if vac:
        o, t = solve(path, 'z3e', 1)
        if o != 'unsat':
            o2, t2 = solve(path, 'cvc5', 1); t += t2
            if o2 == 'unsat': o = o2
        return {'name': name, 'ok': o != 'unsat', 'solver': 'z3e/cvc5', 'time': t, 'answer': o}
    tot = 0
    o = 'not attempted: out of time'
    if hint and effort.limit(tmax) > 0:
        o, t = solve(path, hint, effort.limit(tmax)); tot += t
        if o == 'unsat': return {'name': name, 'ok': True, 'solver': hint, 'time': tot, 'answer': o}
    for lim, ss in STAGES:
        if lim > tmax: lim = tmax
        for s in ss:
            l = effort.limit(lim)
            if l <= 0 or (lim > 6 and effort.deadline and effort.lost >= 6): continue
            o, t = solve(path, s, l); tot += t
            if o == 'unsat': return {'name': name, 'ok': True, 'solver': s, 'time': tot, 'answer': o}
    effort.lost += 1
    return {'name': name, 'ok': False, 'solver': None, 'time': tot, 'answer': o, 'file': path}

def prove(key, pool, workdir, hints=None, tmax=25, only=None, base=None, deadline=None):
    r = Result(key)
    t0 = time.time()
    try:
        text, r.info = build(key)
        r.sha = hashlib.sha256(text.encode()).hexdigest()[:16]
        goals = vcs(text, os.path.join(workdir, key.replace('@', '_')))
    except Exception as e:
        r.status = 'extraction'; r.err = str(e); r.wall = time.time() - t0
        return r
    cnt = {}
    eff = Effort(deadline if base is not None and base != r.sha else None)
    fs = []
    for n, p in goals:
        cnt[n] = cnt.get(n, 0) + 1
        nm = n if cnt[n] == 1 else '%s~%d' % (n, cnt[n])
        if only and not re.search(only, nm): continue
        fs.append(pool.submit(discharge, nm, p, (hints or {}).get(nm), int(specs()[key].get('timeout', tmax)), eff))
    r.goals = [f.result() for f in fs]
    # a program point is vacuous only if none of the paths to it is feasible
    alive = {g['name'].split('~')[0] for g in r.goals if g['name'].startswith('VACUITY') and g['ok']}
    for g in r.goals:
        if g['name'].startswith('VACUITY') and g['name'].split('~')[0] in alive | {'VACUITY loop ' + x for x in str(specs()[key].get('dead', '')).split(',')}: g['ok'] = True
    r.status = 'ok' if all(g['ok'] for g in r.goals) else 'failed'
    r.wall = time.time() - t0
    return r

def lib_of(key):
    out = []
    def go(f):
        m = re.findall(r'^\s*use (\w+)\.\w+', open(f).read(), re.M)
        for x in m:
            p = os.path.join(os.path.dirname(HERE), 'specs', x + '.mlw')
            if os.path.exists(p) and x not in out: out.append(x); go(p)
    sp = specs()[key]
    for u in list(sp.get('uses', [])):
        x = u.split('.')[0]; p = os.path.join(os.path.dirname(HERE), 'specs', x + '.mlw')
        if os.path.exists(p) and x not in out: out.append(x); go(p)
    return out

def prove_lib(x, pool, workdir, hints=None, tmax=25, only=None):
    """the lemmas of specs/x.mlw"""
    r = Result('lib_' + x); t0 = time.time()
    text = open(os.path.join(os.path.dirname(HERE), 'specs', x + '.mlw')).read()
    r.sha = hashlib.sha256(text.encode()).hexdigest()[:16]; r.status = 'ok'
    if not re.search(r'^\s*(lemma|goal|let (rec )?lemma)\b', text, re.M): r.wall = 0; return r
    try: goals = vcs(text, os.path.join(workdir, 'lib_' + x))
    except Exception as e:
        r.status = 'extraction'; r.err = str(e); r.wall = time.time() - t0; return r
    fs = [pool.submit(discharge, n, p, (hints or {}).get(n), tmax) for n, p in goals if not only or re.search(only, n)]
    r.goals = [f.result() for f in fs]
    r.status = 'ok' if all(g['ok'] for g in r.goals) else 'failed'
    r.wall = time.time() - t0
    return r

if __name__ == '__main__':
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('keys', nargs='*'); ap.add_argument('-t', type=int, default=10); ap.add_argument('--show', action='store_true'); ap.add_argument('--only'); ap.add_argument('-q', action='store_true')
    a = ap.parse_args()
    keys = a.keys or list(specs())
    pool = ThreadPoolExecutor(8)
    wd = '/tmp/w/vc'; 
    for k in keys:
        if a.show: 
            print(build(k)[0]); continue
        shutil.rmtree(os.path.join(wd, k.replace('@', '_')), ignore_errors=True)
        r = prove(k, pool, wd, tmax=a.t, only=a.only) if not k.startswith('lib:') else prove_lib(k[4:], pool, wd, tmax=a.t, only=a.only)
        print('%s: %s %d/%d goals %.1fs %s' % (k, r.status, sum(g['ok'] for g in r.goals), len(r.goals), r.wall, r.err or ''))
        for g in r.goals:
            if not g['ok']: print('   FAIL', g['name'], g['answer'], g.get('file'))
            elif g['time'] > 3 and not a.q: print('   slow', g['name'], g['solver'], '%.1f' % g['time'])
