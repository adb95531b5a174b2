"""End-to-end bounded check of lemon (built from /repo's working tree) against lalrlib on generated grammars."""
import os, re, subprocess, sys, random
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lalrlib
from byacc_e2e import Mismatch
REPO = os.environ.get('VERIF_REPO', '/repo')

def build(dst, san=False):
    os.makedirs(dst, exist_ok=True)
    exe = os.path.join(dst, 'lemon')
    p = subprocess.run(['gcc', '-O1', '-g', '-w'] + (['-fsanitize=address,undefined', '-fno-sanitize-recover=undefined'] if san else []) + ['-o', exe, REPO + '/lemon/lemon.c'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode: raise RuntimeError('compile failed: ' + p.stdout.decode()[-2000:])
    return exe

class LSpec: classes = {}
def gen(rng, kind):
    S = LSpec(); S.kind = kind
    if kind == 'wide':
        nT = rng.choice([3, 30, 64, 70, 130, 260]); nN = rng.choice([3, 20, 64, 70]) if nT < 100 else rng.choice([2, 5, 30])
    elif kind == 'medium': nT = rng.randint(4, 12); nN = rng.randint(4, 12)
    elif kind == 'expr': nT = rng.randint(3, 9); nN = rng.randint(1, 3)
    elif kind == 'multi': nT = rng.choice([rng.randint(2, 6), rng.randint(5, 16)]); nN = rng.randint(1, 5)
    else: nT = rng.randint(1, 5); nN = rng.randint(1, 5)
    S.tokens = [{'name': 'T%d' % i, 'prec': -1, 'assoc': None} for i in range(nT)]
    S.nts = ['s'] + ['n%d' % i for i in range(nN)]
    S.levels = []
    if kind in ('expr', 'prec') or rng.random() < (.7 if kind == 'multi' else .3):
        pool = list(range(nT)); rng.shuffle(pool); lv = rng.randint(1, 4)
        for l in range(1, lv + 1):
            if not pool: break
            a = rng.choice(['left', 'right', 'nonassoc'])
            ts = [pool.pop() for _ in range(min(len(pool), rng.randint(1, 2)))]
            for t in ts: S.tokens[t]['prec'] = l; S.tokens[t]['assoc'] = a
            S.levels.append((a, ts))
    S.rules = []; seen = set()
    def add(l, rhs, prec=None):
        key = (l, tuple(('t', x[1]) if x[0] == 'm' and len(x) == 2 else x for x in rhs))   # a class of one member is listed as the member
        if key in seen: return
        seen.add(key)
        S.rules.append({'lhs': l, 'rhs': rhs, 'prec': prec, 'code': True})
    for _ in range(rng.choice([1, 1, 2])):
        add(0, rng.choice([[('n', 1)], [('n', 1)], [('n', rng.randint(1, nN)), ('t', rng.randrange(nT))], [('n', 1), ('n', rng.randint(1, nN))]]))
    def sym(pn): return ('n', rng.randint(1, nN)) if rng.random() < pn else ('t', rng.randrange(nT))
    multi = kind == 'multi'
    for i in range(1, nN + 1):
        k = rng.randint(1, 4) if kind != 'wide' else rng.choice([1, 2, 3])
        if kind == 'expr': k = rng.randint(2, 6)
        for j in range(k):
            if kind == 'wide' and j == 0 and i < nN:
                rhs = [('n', i + 1)] + ([('t', rng.randrange(nT))] if rng.random() < .6 else [])
            elif kind == 'expr' and rng.random() < .75:
                n = ('n', i) if rng.random() < .8 else ('n', rng.randint(1, nN)); m = ('n', i)
                t = lambda: ('t', rng.randrange(nT))
                rhs = rng.choice([[n, t(), m], [t(), n], [n, t()], [n, m], [n, t(), m, t(), n]])
            else:
                ln = rng.choice([0, 1, 1, 2, 2, 3, 4]); rhs = [sym(.45 if kind != 'nullable' else .75) for _ in range(ln)]
            if multi and rhs and rng.random() < .3 and nT >= 2:
                rhs[rng.randrange(len(rhs)) if rng.random() < .6 else 0] = ('m',) + tuple(rng.sample(range(nT), min(nT, rng.choice([2, 2, 3, 4, rng.randint(1, 12)]))))
            add(i, rhs, rng.randrange(nT) if S.levels and rng.random() < .25 else None)
        if rng.random() < .6: add(i, [('t', rng.randrange(nT))])
    used = {x[1] for r in S.rules for x in r['rhs'] if x[0] == 't'} | {y for r in S.rules for x in r['rhs'] if x[0] == 'm' for y in x[1:]} | {r['prec'] for r in S.rules} | {i for _, ts in S.levels for i in ts}
    S.declare = [i for i in range(nT) if i not in used or rng.random() < .7]
    S.nocode = kind == 'nocode'
    if S.nocode:
        for r in S.rules: r['code'] = rng.random() < .3
    elif rng.random() < .2: 
        for r in S.rules:
            if not (len(r['rhs']) == 1 and r['rhs'][0][0] == 'n'): r['code'] = rng.random() < .6
    S.expect = None
    S.classes = {}     # token classes declared by name; the others are written out
    if multi:
        for r in S.rules:
            for x in r['rhs']:
                if x[0] == 'm' and x not in S.classes and (len(x) == 2 or rng.random() < .3): S.classes[x] = 'k%d' % len(S.classes)
    return S

def sname(S, x, named=False):
    if named and x in S.classes: return S.classes[x]
    return S.tokens[x[1]]['name'] if x[0] == 't' else S.nts[x[1]] if x[0] == 'n' else '|'.join(S.tokens[i]['name'] for i in x[1:])
def text(S):
    o = []
    for i in S.declare: o.append('%%token %s.' % S.tokens[i]['name'])
    for a, ts in S.levels: o.append('%%%s %s.' % (a, ' '.join(S.tokens[i]['name'] for i in ts)))
    if S.expect is not None: o.append('%%expect %d' % S.expect)
    for x, k in getattr(S, 'classes', {}).items(): o.append('%%token_class %s %s.' % (k, ' '.join(S.tokens[i]['name'] for i in x[1:])))
    for r in S.rules:
        o.append('%s ::= %s.%s%s' % (S.nts[r['lhs']], ' '.join(sname(S, x, True) for x in r['rhs']), ' [%s]' % S.tokens[r['prec']]['name'] if r['prec'] is not None else '', ' { x(); }' if r['code'] else ''))
    return '\n'.join(o) + '\n'

def model(S, yprec=False, noprec=False):
    """terminals 0=$, 1+i token i, after them one pseudo terminal per multi-terminal occurrence is expanded: multi-terminal = set of tokens.
    We expand a multiterminal symbol into a fresh nonterminal-free alternative by giving it a pseudo 'terminal class' handled in LR(0):
    simplest sound treatment: treat class as a nonterminal-like union is not LALR-equal, so grammars with classes are modelled by rule copies."""
    ntk = 1 + len(S.tokens)
    cls = {}
    for r in S.rules:
        for x in r['rhs']:
            if x[0] == 'm': cls.setdefault(x[1:], ntk + len(cls))
    nt = ntk + len(cls)
    rules = []; precs = [(-1, None)]; S.precsym = [None]
    for k, r in enumerate(S.rules):
        rhs = []
        for x in r['rhs']: rhs.append(1 + x[1] if x[0] == 't' else cls[x[1:]] if x[0] == 'm' else nt + x[1])
        ps = None
        p = (-1, None)
        if not noprec:
            if r['prec'] is not None: ps = r['prec']
            else:
                ts = [i for x in r['rhs'] if x[0] != 'n' for i in x[1:]]
                if yprec:
                    if ts and S.tokens[ts[-1]]['prec'] >= 0: ps = ts[-1]
                else:
                    for t in ts:
                        if S.tokens[t]['prec'] >= 0: ps = t; break
            if ps is not None: p = (S.tokens[ps]['prec'], S.tokens[ps]['assoc'])
        S.precsym.append(ps)
        rules.append((nt + r['lhs'], tuple(rhs))); precs.append(p)
    g = lalrlib.Gram(nt, len(S.nts), rules, nt)
    g.cls = {v: [1 + i for i in k] for k, v in cls.items()}; g.ntk = ntk
    sp = [(-1, None)] + [((t['prec'], t['assoc']) if not noprec else (-1, None)) for t in S.tokens]
    return g, precs, sp

class Skip(Exception): pass
def expand(L):
    """a token class counts as each of its members: in lookahead sets and as transitions"""
    g = L.g
    if not g.cls: return
    for s in range(len(L.states)):
        for r, v in L.red[s].items():
            for c in [x for x in v if x in g.cls]: v.discard(c); v.update(g.cls[c])
        for c in [x for x in L.goto[s] if x in g.cls]:
            t = L.goto[s].pop(c)
            for x in g.cls[c]:
                if x in L.goto[s] and L.goto[s][x] != t: raise Skip()     # two shifts on one token
                L.goto[s][x] = t
    for f in g.first.values():
        for c in [x for x in f if x in g.cls]: f.discard(c); f.update(g.cls[c])

def resolve(L, rprec, sprec):
    """lemon's documented resolution; rule order = order in the file"""
    g = L.g; acts = []; n = [0, 0]; weird = []
    for s in range(len(L.states)):
        by = {}
        for x, t in L.goto[s].items():
            if not g.isn(x): by.setdefault(x, []).append(('s', t))
        for r in sorted(L.red[s]):
            if r == 0: continue
            for x in L.red[s][r]: by.setdefault(x, []).append(('r', r))
        a = {}
        for x, lst in by.items():
            st = ['ok'] * len(lst)
            for i in range(len(lst)):
                for j in range(i + 1, len(lst)):
                    if st[i] not in ('ok', 'err') or st[j] != 'ok': continue
                    p, q = lst[i], lst[j]
                    pl, pa = sprec[x] if p[0] == 's' else rprec[p[1]]; ql, qa = rprec[q[1]]
                    if p[0] == 's':
                        if pl < 0 or ql < 0: st[j] = 'no'; n[0] += 1
                        elif pl > ql or (pl == ql and pa == 'right'): st[j] = 'no'
                        elif pl < ql or pa == 'left': st[i] = 'no'
                        else: st[i] = 'err'; st[j] = 'no'
                    else:
                        if pl < 0 or ql < 0 or pl == ql: st[j] = 'no'; n[1] += 1
                        elif pl > ql: st[j] = 'no'
                        else: st[i] = 'no'
            err = 'err' in st
            rem = [lst[k] for k in range(len(lst)) if st[k] == 'ok']
            a[x] = ('x',) if err else rem[0]
        acts.append(a)
    return acts, n, weird

def run(exe, txt, wd, opts=()):
    os.makedirs(wd, exist_ok=True)
    for f in ('g.c', 'g.h', 'g.out'):
        try: os.unlink(os.path.join(wd, f))
        except OSError: pass
    open(os.path.join(wd, 'g.y'), 'w').write(txt)
    p = subprocess.run([exe] + list(opts) + ['-T' + REPO + '/lemon/lempar.c', 'g.y'], cwd=wd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
    rd = lambda f: open(os.path.join(wd, f), errors='replace').read() if os.path.exists(os.path.join(wd, f)) else None
    return {'rc': p.returncode, 'err': p.stderr.decode(errors='replace'), 'stdout': p.stdout.decode(errors='replace'), 'c': rd('g.c'), 'h': rd('g.h'), 'out': rd('g.out')}

def tables(c):
    T = {}
    for m in re.finditer(r'static const ([\w ]+?) (yy\w+)\[\] = \{(.*?)\};', c, re.S):
        T['T' + m.group(2)] = m.group(1)
        T[m.group(2)] = [int(x) for x in re.findall(r'-?\d+', re.sub(r'/\*.*?\*/', '', m.group(3), flags=re.S))]
    for m in re.finditer(r'^#define (YY\w+)\s+\(?(-?\d+)\)?$', c, re.M): T[m.group(1)] = int(m.group(2))
    for m in re.finditer(r'^#define (YYCODETYPE|YYACTIONTYPE) (.*)$', c, re.M): T[m.group(1)] = m.group(2)
    m = re.search(r'yyTokenName\[\] = \{(.*?)\};', c, re.S)
    T['names'] = re.findall(r'"([^"]*)"', m.group(1)) if m else []
    m = re.search(r'yyRuleName\[\] = \{(.*?)\};', c, re.S)
    T['rules'] = re.findall(r'"([^"]*)"', m.group(1)) if m else []
    return T

def find(T, q, tok, which='shift'):
    o = T['yy_shift_ofst'] if which == 'shift' else T['yy_reduce_ofst']
    cnt = T['YY_SHIFT_COUNT'] if which == 'shift' else T['YY_REDUCE_COUNT']
    if q > cnt: return T['yy_default'][q], False
    i = o[q] + tok
    if not (0 <= i < len(T['yy_lookahead'])): raise Mismatch('L04', 'state %d symbol %d: index %d outside the tables' % (q, tok, i))
    if T['yy_lookahead'][i] == tok:
        if i >= len(T['yy_action']): raise Mismatch('L04', 'state %d symbol %d: action index %d outside yy_action' % (q, tok, i))
        return T['yy_action'][i], True
    return T['yy_default'][q], False

RANGE = {'unsigned char': (0, 255), 'unsigned short int': (0, 65535), 'unsigned int': (0, 2**32 - 1), 'signed char': (-128, 127), 'short': (-32768, 32767), 'int': (-2**31, 2**31 - 1)}

def compare(S, R, opts=(), want=None):
    W = lambda p: want is None or p in want
    g, rprec, sprec = model(S, '-z' in opts, '-u' in opts)
    L = lalrlib.Lalr(g)
    try: expand(L)
    except Skip: return {'states': 0, 'SR': 0, 'RR': 0, 'rules': len(S.rules)}
    acts, (SR, RR), weird = resolve(L, rprec, sprec)
    if R['rc'] < 0 or R['c'] is None: raise Mismatch('*', 'lemon crashed or produced nothing: rc=%s %s' % (R['rc'], R['err'][-500:]))
    T = tables(R['c'])
    for t in ('yy_action', 'yy_lookahead', 'yy_shift_ofst', 'yy_default', 'yyRuleInfoLhs', 'yyRuleInfoNRhs'):
        if t not in T: raise Mismatch('*', 'no table %s' % t)
    T.setdefault('yy_reduce_ofst', []); T.setdefault('YY_REDUCE_COUNT', -1)
    # symbols
    hdr = dict((m.group(1), int(m.group(2))) for m in re.finditer(r'^ (\w+) =\s+(\d+),?$', R['h'], re.M))
    code = {0: 0}
    occ = {y for r in S.rules for x in r['rhs'] if x[0] != 'n' for y in x[1:]} | set(S.declare)
    for i, t in enumerate(S.tokens):
        if '-u' in opts and i not in occ: continue
        if t['name'] not in hdr: raise Mismatch('L06', 'token %s missing in the header' % t['name'])
        code[1 + i] = hdr[t['name']]
        if T['names'][hdr[t['name']]] != t['name']: raise Mismatch('L06', 'token %s has code %d but that code is named %s' % (t['name'], hdr[t['name']], T['names'][hdr[t['name']]]))
    if sorted(code.values()) != list(range(len(code))): raise Mismatch('L06', 'token codes %s' % sorted(code.values()))
    nc = {}
    for i, n in enumerate(S.nts):
        k = [j for j, x in enumerate(T['names']) if x == n]
        if len(k) != 1: raise Mismatch('L06', 'nonterminal %s listed %d times' % (n, len(k)))
        nc[g.nt + i] = k[0]
    # rules
    rt = {}
    for k, r in enumerate(S.rules):
        tx = ('%s ::= %s' % (S.nts[r['lhs']], ' '.join(sname(S, x) for x in r['rhs']))).rstrip()
        js = [j for j, x in enumerate(T['rules']) if x == tx]
        if len(js) != 1: raise Mismatch('L06', 'rule "%s" is listed %d times' % (tx, len(js)))
        j = js[0]; rt[k + 1] = j
        if T['yyRuleInfoLhs'][j] != nc[g.nt + r['lhs']] or -T['yyRuleInfoNRhs'][j] != len(r['rhs']): raise Mismatch('L06', 'rule info of "%s" is wrong' % tx)
    if len(T['rules']) != len(S.rules): raise Mismatch('L06', '%d rules listed, %d in the grammar' % (len(T['rules']), len(S.rules)))
    # the report: FIRST sets, nullability, rules with their precedence symbols
    if R['out'] is not None and '-q' not in opts:
        sec = R['out'].split('\nSymbols:\n')[-1]
        if W('L01'):
            fs = {m.group(1): m.group(2).split() for m in re.finditer(r'^ +\d+: (\w+):(.*)$', sec, re.M)}
            for i, n in enumerate(S.nts):
                if n not in fs: raise Mismatch('L01', 'no FIRST set of %s in the report' % n)
                got = [x for x in fs[n] if x != '<lambda>']; x = g.nt + i
                if ('<lambda>' in fs[n]) != (x in g.nullable): raise Mismatch('L01', '%s is %sreported nullable' % (n, '' if '<lambda>' in fs[n] else 'not '))
                ex = sorted(S.tokens[t - 1]['name'] for t in g.first[x])
                if sorted(got) != ex: raise Mismatch('L01', 'FIRST(%s) is reported as %s, it is %s' % (n, sorted(got), ex))
        rl = re.findall(r'^ *(\d+): (\w+ ::=.*?)\.(?: \[(\w+) precedence=(-?\d+)\])?$', sec, re.M)
        if W('L05') and [int(x[0]) for x in rl] != list(range(len(S.rules))): raise Mismatch('L05', 'rules are listed in the order %s' % [int(x[0]) for x in rl])
        # numbers: rules with code first, each group in order of appearance
        num = sorted(range(len(S.rules)), key=lambda k: (not S.rules[k]['code'], k))
        for j, k in enumerate(num):
            if rt[k + 1] != j and W('L05'): raise Mismatch('L05', 'rule "%s" has number %d, expected %d' % (T['rules'][rt[k + 1]], rt[k + 1], j))
        if W('L07'):
            by = {x[1]: x for x in rl}
            for k, r in enumerate(S.rules):
                tx = ('%s ::= %s' % (S.nts[r['lhs']], ' '.join(sname(S, x) for x in r['rhs']))).rstrip()
                if tx not in by: raise Mismatch('L06', 'rule "%s" is not in the report' % tx)
                ps = S.precsym[k + 1]; e = (S.tokens[ps]['name'], str(S.tokens[ps]['prec'])) if ps is not None else ('', '')
                if '-u' in opts and r['prec'] is not None: continue
                if by[tx][2:] != e: raise Mismatch('L07', 'rule "%s": precedence symbol %s, expected %s' % (tx, by[tx][2:], e))
    # L08 data types
    if W('L08'):
        for t in ('yy_action', 'yy_lookahead', 'yy_shift_ofst', 'yy_reduce_ofst', 'yy_default', 'yyRuleInfoLhs', 'yyRuleInfoNRhs'):
            ty = T.get('T' + t)
            if not ty: continue
            ty = T.get(ty, ty)
            if ty in RANGE:
                lo, hi = RANGE[ty]
                if T[t] and (min(T[t]) < lo or max(T[t]) > hi): raise Mismatch('L08', 'table %s: values %d..%d do not fit type %s' % (t, min(T[t]), max(T[t]), ty))
        if T['YYCODETYPE'] in RANGE and RANGE[T['YYCODETYPE']][1] < max(len(T['names']) - 1, T['YYNOCODE']): raise Mismatch('L08', 'symbol codes up to %d do not fit %s' % (T['YYNOCODE'], T['YYCODETYPE']))
        if T['YYACTIONTYPE'] in RANGE and RANGE[T['YYACTIONTYPE']][1] < T['YY_MAX_REDUCE']: raise Mismatch('L08', 'action codes up to %d do not fit %s' % (T['YY_MAX_REDUCE'], T['YYACTIONTYPE']))
    # constants consistent
    nr = len(S.rules)
    if not (T['YY_MAX_SHIFT'] == T['YYNSTATE'] - 1 and T['YY_MAX_SHIFTREDUCE'] - T['YY_MIN_SHIFTREDUCE'] + 1 == nr and T['YY_MAX_REDUCE'] - T['YY_MIN_REDUCE'] + 1 == nr and T['YY_MIN_SHIFTREDUCE'] > T['YY_MAX_SHIFT'] and T['YY_ERROR_ACTION'] == T['YY_MAX_SHIFTREDUCE'] + 1 and T['YY_ACCEPT_ACTION'] == T['YY_ERROR_ACTION'] + 1 and T['YY_NO_ACTION'] == T['YY_ACCEPT_ACTION'] + 1 and T['YY_MIN_REDUCE'] == T['YY_NO_ACTION'] + 1): raise Mismatch('L04', 'action code ranges overlap')
    inv = {v: k for k, v in rt.items()}
    def kind(a):
        if a <= T['YY_MAX_SHIFT']: return ('s', a)
        if T['YY_MIN_SHIFTREDUCE'] <= a <= T['YY_MAX_SHIFTREDUCE']: return ('sr', inv[a - T['YY_MIN_SHIFTREDUCE']])
        if a == T['YY_ERROR_ACTION']: return ('x',)
        if a == T['YY_ACCEPT_ACTION']: return ('acc',)
        if T['YY_MIN_REDUCE'] <= a <= T['YY_MAX_REDUCE']: return ('r', inv[a - T['YY_MIN_REDUCE']])
        return ('none',)
    wkey = set(weird)
    # walk
    m = {0: 0}; todo = [0]
    while todo:
        s = todo.pop(); q = m[s]
        if q >= T['YYNSTATE']: raise Mismatch('L02', 'state %d out of range' % q)
        reds = {a[1] for a in acts[s].values() if a[0] == 'r'}
        for x in range(g.ntk):
            if x not in code: continue
            a = acts[s].get(x); act, explicit = find(T, q, code[x]); k = kind(act)
            if k[0] in ('none', 'acc'): raise Mismatch('L04', 'state %d on %s decodes to a non-action (%d)' % (q, T['names'][code[x]], act))
            if (s, x) in wkey: continue
            nm = T['names'][code[x]]
            if a is None:
                if k == ('x',) : continue
                if k[0] == 'r' and not explicit and k[1] in reds and g.rules[k[1]][0] != g.start: continue     # default reduction
                p = 'L09' if not explicit else 'L02'
                if W(p): raise Mismatch(p, 'state %d on %s: %s, expected an error' % (q, nm, k))
            elif a[0] == 'x':
                if k != ('x',) and W('L03'): raise Mismatch('L03', 'state %d on %s: %s, expected an error (non-associative)' % (q, nm, k))
            elif a[0] == 'r':
                if k != a:
                    n = sum(x in v for v in L.red[s].values()) + (x in L.goto[s])
                    p = 'L03' if n > 1 else 'L09' if not explicit else 'L02'
                    if W(p): raise Mismatch(p, 'state %d on %s: %s, expected reduce %d' % (q, nm, k, a[1]))
            else:
                chk_shift(S, g, L, acts, m, todo, s, q, x, a[1], k, nm, W, '-c' not in opts)
        for x, t in L.goto[s].items():
            if not g.isn(x) or (s == 0 and x == g.start): continue
            nm = T['names'][nc[x]]
            act, explicit = find(T, q, nc[x], 'reduce'); k = kind(act)
            if not explicit: 
                if W('L04'): raise Mismatch('L04', 'no goto for state %d on %s' % (q, nm))
                continue
            chk_shift(S, g, L, acts, m, todo, s, q, x, t, k, nm, W, '-c' not in opts)
        if s == 0:
            act, explicit = find(T, q, nc[g.start], 'reduce')
            if kind(act) != ('acc',) and W('L04'): raise Mismatch('L04', 'no accept action')
    # counts
    if W('L03') and not weird:
        mm = re.search(r'(\d+) parsing conflicts', R['err']); got = int(mm.group(1)) if mm else (S.expect or 0)
        if got != SR + RR: raise Mismatch('L03', '%d conflicts reported, there are %d' % (got, SR + RR))
        if '-s' in opts:
            for lab, v in (('S/R', SR), ('R/R', RR)):
                mm = re.search(r'conflicts %s\.* +(\d+)' % lab, R['stdout']); got = int(mm.group(1)) if mm else 0
                if got != v: raise Mismatch('L03', '%d %s conflicts in the statistics, there are %d' % (got, lab, v))
        used = {a[1] for ac in acts for a in ac.values() if a[0] == 'r'}
        nun = R['err'].count('This rule can not be reduced') + R['stdout'].count('This rule can not be reduced')
        if nun != nr - len(used): raise Mismatch('L03', '%d rules reported never reduced, there are %d' % (nun, nr - len(used)))
        bad = (SR + RR != (S.expect or 0)) or nun > 0
        if (R['rc'] != 0) != bad: raise Mismatch('L03', 'exit status %d' % R['rc'])
    return {'states': len(L.states), 'SR': SR, 'RR': RR, 'rules': nr}

def chk_shift(S, g, L, acts, m, todo, s, q, x, t, k, nm, W, unit=True):
    a = acts[t]
    def sole(t):
        rs = {v for v in acts[t].values()}
        if len(rs) == 1 and not L.goto[t]:
            v = rs.pop()
            if v[0] == 'r' and g.rules[v[1]][0] != g.start: return v[1]
        if acts[t] and all(v[0] == 'r' for v in acts[t].values()) and not any(g.isn(x) for x in L.goto[t]):
            r = {v[1] for v in acts[t].values()}
            if len(r) == 1 and g.rules[min(r)][0] != g.start: return r.pop()
        return None
    # unit rule elimination: a goto into a state whose only action reduces a code-less single-symbol rule may skip it
    chain = [(x, t)]
    while unit and g.isn(x):
        r = sole(t)
        if r is None or S.rules[r - 1]['code'] or len(S.rules[r - 1]['rhs']) != 1: break
        lhs = g.rules[r][0]
        if lhs == g.start: break
        x = lhs; t = L.goto[s][x]
        if (x, t) in chain: break
        chain.append((x, t))
    if k[0] == 's':
        if any(m.get(u) == k[1] for _, u in chain): return
        x, t = chain[-1]
        if t in m:
            if W('L02'): raise Mismatch('L02', 'state %d on %s: goes to %d, expected %d' % (q, nm, k[1], m[t]))
        else:
            if k[1] in m.values() and W('L02'): raise Mismatch('L02', 'state %d on %s: goes to %d, which is another item set' % (q, nm, k[1]))
            m[t] = k[1]; todo.append(t)
        return
    for x, t in chain:
        if k[0] == ('r' if g.isn(x) else 'sr') and k[1] == sole(t): return
    r = sole(t)
    p = 'L03' if not g.isn(x) and sum(x in v for v in L.red[s].values()) else 'L02'
    if W(p): raise Mismatch(p, 'state %d on %s: %s, expected a shift%s' % (q, nm, k, ' then reduce %d' % r if r is not None else ''))

KINDS = ['small', 'small', 'medium', 'expr', 'expr', 'prec', 'nullable', 'nocode', 'multi', 'multi']
def case(rng, wide=False):
    S = gen(rng, 'wide' if wide else rng.choice(KINDS))
    opts = []
    x = rng.random()
    if x < .1: opts.append('-z')
    elif x < .15: opts.append('-u')
    if rng.random() < .2: opts.append('-c')
    if rng.random() < .1: opts.append('-r')
    if rng.random() < .3: opts.append('-s')
    if rng.random() < .2: S.expect = rng.choice([0, 1, 2])
    return S, opts

if __name__ == '__main__':
    seed = int(sys.argv[1]); n = int(sys.argv[2]); wide = len(sys.argv) > 3
    exe = build('/tmp/w/le2e')
    for i in range(n):
        rng = random.Random('%d-%d' % (seed, i)); S, opts = case(rng, wide)
        txt = text(S); R = run(exe, txt, '/tmp/w/le2e/run', opts)
        try: r = compare(S, R, opts); n <= 20 and print(i, S.kind, r)
        except Mismatch as e:
            print(i, S.kind, opts, 'MISMATCH', e); open('/tmp/w/le2e/bad%d.y' % i, 'w').write(txt)
        except Exception as e:
            print(i, S.kind, opts, 'EXC', repr(e), R['rc'], R['err'][-300:]); open('/tmp/w/le2e/bad%d.y' % i, 'w').write(txt)
            import traceback; traceback.print_exc(limit=-2)
