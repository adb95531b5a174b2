"""Random grammars + renderers (yacc and lemon syntax)."""
import random

class Spec:
    """tokens: list of dict(name, lit(bool), code(or None), prec(level), assoc); nts: names; rules: list of dict(lhs, rhs(list of symbol refs), prec(token idx or None))
    symbol refs: ('t', i) | ('n', i) | ('m',)  -- 'm' = mid-rule action"""
    pass

LITS = list("+-*/<>=!&|^~()[]{},;:.?@#")

def gen(rng, kind):
    S = Spec(); S.kind = kind
    if kind == 'wide':
        nT = rng.choice([3, 30, 64, 66, 70, 130]); nN = rng.choice([3, 63, 64, 65, 70, 130]) if nT < 60 else rng.choice([2, 5, 64, 66])
    elif kind == 'medium':
        nT = rng.randint(4, 12); nN = rng.randint(4, 12)
    elif kind == 'expr':
        nT = rng.randint(3, 9); nN = rng.randint(1, 3)
    else:
        nT = rng.randint(1, 5); nN = rng.randint(1, 5)
    S.tokens = []
    lits = LITS[:]; rng.shuffle(lits)
    codes = set()
    for i in range(nT):
        t = {'code': None, 'prec': 0, 'assoc': None}
        if lits and rng.random() < 0.4:
            t['name'] = lits.pop(); t['lit'] = True
        else:
            t['name'] = 'T%d' % i; t['lit'] = False
        if kind == 'codes' and rng.random() < (0.25 if t['lit'] else 0.7):
            c = rng.choice([rng.randint(257, 275), rng.randint(257, 600), rng.randint(1, 3)])
            if c not in codes and c != 256 and c > 0:
                codes.add(c); t['code'] = c
                if rng.random() < .2: t['recode'] = rng.choice([257, 258, 2, 700])   # declared twice: the last number counts
        S.tokens.append(t)
    S.nts = ['n%d' % i for i in range(nN)]
    S.use_error = kind in ('error',) 
    S.pmid = rng.choice([0, 0, .1, .5])
    # precedence
    S.levels = []
    if kind in ('expr', 'prec') or (kind in ('small', 'medium', 'wide', 'codes', 'error') and rng.random() < 0.3):
        lv = rng.randint(1, 4); pool = list(range(nT)); rng.shuffle(pool)
        for l in range(1, lv + 1):
            if not pool: break
            a = rng.choice(['left', 'right', 'nonassoc'])
            ts = [pool.pop() for _ in range(min(len(pool), rng.randint(1, 2)))]
            for t in ts: S.tokens[t]['prec'] = l; S.tokens[t]['assoc'] = a
            S.levels.append((a, ts))
    S.pdummy = []
    S.rules = []
    def sym(i, pn):
        if rng.random() < pn: return ('n', rng.randrange(nN))
        return ('t', rng.randrange(nT))
    order = list(range(nN))
    for i in order:
        k = rng.randint(1, 4) if kind != 'wide' else rng.choice([1, 1, 2, 3])
        if kind == 'expr': k = rng.randint(2, 6)
        for j in range(k):
            if kind == 'wide' and j == 0 and i + 1 < nN:
                rhs = [('n', i + 1)]
                if rng.random() < .5: rhs.append(('t', rng.randrange(nT)))
                if rng.random() < .2: rhs.insert(0, ('n', rng.randrange(nN)))
            elif kind == 'expr' and rng.random() < 0.75:
                n = ('n', i) if rng.random() < .8 else ('n', rng.randrange(nN)); m = ('n', i) if rng.random() < .8 else ('n', rng.randrange(nN))
                rhs = rng.choice([[n, ('t', rng.randrange(nT)), m], [('t', rng.randrange(nT)), n], [n, ('t', rng.randrange(nT))], [n, m], [n, ('t', rng.randrange(nT)), m, ('t', rng.randrange(nT)), n]])
            else:
                ln = rng.choice([0, 1, 1, 2, 2, 3, 4]) if kind != 'nullable' else rng.choice([0, 0, 1, 2, 3, 4])
                rhs = [sym(i, 0.45 if kind != 'nullable' else 0.75) for _ in range(ln)]
                if kind == 'error' and rng.random() < 0.3: rhs.insert(rng.randint(0, len(rhs)), ('e',))
                if kind in ('prec', 'wide') and rng.random() < (0.2 if kind == 'prec' else S.pmid): rhs.insert(rng.randint(0, len(rhs)), ('m',))
                if kind in ('small', 'midrule', 'error') and rng.random() < 0.1: rhs.insert(rng.randint(0, len(rhs)), ('m',))
            if kind == 'expr' and len(rhs) > 1 and rng.random() < S.pmid: rhs.insert(rng.randint(1, len(rhs) - 1), ('m',))
            r = {'lhs': i, 'rhs': rhs, 'prec': None}
            if S.levels and rng.random() < 0.25: r['prec'] = rng.randrange(nT); r['ppos'] = rng.choice([len(rhs), rng.randint(0, len(rhs))])
            S.rules.append(r)
        if kind == 'expr' or rng.random() < 0.5:   # make it more likely to be productive
            S.rules.append({'lhs': i, 'rhs': [('t', rng.randrange(nT))] if kind != 'nullable' or rng.random() < .5 else [], 'prec': None})
    S.start = 0 if rng.random() < .7 else rng.randrange(nN)
    S.explicit_start = S.start != S.rules[0]['lhs']
    # sometimes split one nonterminal's rules over two blocks
    if rng.random() < 0.2: 
        extra = {'lhs': rng.randrange(nN), 'rhs': [('t', rng.randrange(nT))], 'prec': None}
        S.rules.append(extra)
    S.expect = None; S.expect_rr = None
    return S

def tname(t): return "'%s'" % t['name'] if t['lit'] else t['name']

def yacc_text(S, actions=None):
    o = []
    leveled = {i for _, ts in S.levels for i in ts}
    if getattr(S, 'errcode', None): o.append('%%token error %d' % S.errcode)
    for t in S.tokens:
        if t.get('recode'): o.append('%%token %s %d' % (tname(t), t['recode']))
    for i, t in enumerate(S.tokens):
        if i in leveled and t['code'] is None: continue
        if t['lit'] and t['code'] is None: continue
        o.append('%%token %s%s' % (tname(t), '' if t['code'] is None else ' %d' % t['code']))
    for a, ts in S.levels: o.append('%%%s %s' % (a, ' '.join(tname(S.tokens[i]) for i in ts)))
    if S.explicit_start: o.append('%%start %s' % S.nts[S.start])
    if S.expect is not None: o.append('%%expect %d' % S.expect)
    if S.expect_rr is not None: o.append('%%expect-rr %d' % S.expect_rr)
    o.append('%%')
    last = None
    for k, r in enumerate(S.rules):
        rhs = []
        for s in r['rhs']:
            rhs.append(tname(S.tokens[s[1]]) if s[0] == 't' else S.nts[s[1]] if s[0] == 'n' else 'error' if s[0] == 'e' else '{ ; }')
        if r['prec'] is not None: rhs.insert(r.get('ppos', len(rhs)), '%prec ' + tname(S.tokens[r['prec']]))
        if actions: rhs.append(actions(k, r))
        o.append('%s : %s ;' % (S.nts[r['lhs']], ' '.join(rhs)))
    o.append('%%')
    return '\n'.join(o) + '\n'

def model(S, mode='yacc'):
    """-> Gram, rule precs, token precs; terminals: 0=$end 1=error 2+i = token i; nonterminals nt+i, mid-rule nonterminals after.
    rule numbers are byacc's y.output numbers (0 = $accept)"""
    from lalrlib import Gram
    nt = 2 + len(S.tokens); nn = len(S.nts)
    rules = []; precs = [(0, None)]; names = {}
    nm = 0
    # mid-rule nonterminals numbered after
    for r in S.rules:
        rhs = []
        for s in r['rhs']:
            if s[0] == 't': rhs.append(2 + s[1])
            elif s[0] == 'n': rhs.append(nt + s[1])
            elif s[0] == 'e': rhs.append(1)
            else:
                rhs.append(nt + nn + nm); rules.append((nt + nn + nm, ())); precs.append((0, None)); nm += 1
        p = (0, None)
        terms = [x for x in rhs if x < nt]
        if r['prec'] is not None:
            t = S.tokens[r['prec']]; p = (t['prec'], t['assoc'])
        elif mode == 'yacc':
            if terms and terms[-1] >= 2: t = S.tokens[terms[-1] - 2]; p = (t['prec'], t['assoc'])
        else:   # first token that has a precedence
            for x in terms:
                if x >= 2 and S.tokens[x - 2]['prec']: t = S.tokens[x - 2]; p = (t['prec'], t['assoc']); break
        rules.append((nt + r['lhs'], tuple(rhs))); precs.append(p)
    g = Gram(nt, nn + nm, rules, nt + S.start)
    sp = [(0, None), (0, None)] + [(t['prec'], t['assoc']) for t in S.tokens]
    return g, precs, sp
