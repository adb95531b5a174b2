"""byacc -B: the tables of a backtracking parser decoded as the skeleton does, against an independent LALR(1) construction"""
import random, re
import gengram, lalrlib, byacc_e2e
from byacc_e2e import Mismatch
from more_byacc import byacc

def options(T, q, c):
    """(shift state or None, rules) that the parser tries for code c in state q, or None if there is no conflict entry"""
    n = T['yycindex'][q]
    if not n: return None
    n += c
    if not (0 <= n <= T['YYTABLESIZE'] and n < len(T['yycheck']) and T['yycheck'][n] == c): return None
    k = T['yytable'][n]; ct = T['yyctable']; sh = None
    if not 0 <= k < len(ct): return ('outside', k)
    if ct[k] != -1: sh = ct[k]
    k += 1; rs = []
    while k < len(ct) and ct[k] != -1: rs.append(ct[k]); k += 1
    if k >= len(ct): return ('unterminated', k)
    return (sh, rs)

def expected(L, rprec, sprec):
    """per state and token: the actions with 0 (kept), 1 (to be tried one after the other) or 2 (removed by precedence); None where the first rule wins anyway"""
    out = []
    final = L.goto[0].get(L.g.start)
    for s in range(len(L.states)):
        by = {}
        for x, t in L.goto[s].items():
            if not L.g.isn(x): by.setdefault(x, []).append(('s', t))
        for r in sorted(L.red[s]):
            if r:
                for x in L.red[s][r]: by.setdefault(x, []).append(('r', r))
        d = {}
        for x, lst in by.items():
            sup = [0] * len(lst); pref = 0
            for k in range(1, len(lst)):
                p = lst[k]; q = lst[pref]; pl, pa = rprec[p[1]]; ql, qa = sprec[x] if q[0] == 's' else (0, None)
                if q[0] == 's' and ql > 0 and pl > 0:
                    if ql < pl or (ql == pl and qa == 'left'): sup[pref] = 2; pref = k
                    elif ql > pl or qa == 'right': sup[k] = 2
                    else: sup[k] = sup[pref] = 2
                else:
                    sup[k] = 1
                    if sup[pref] == 0: sup[pref] = 1
            d[x] = None if s == final and x == 0 else list(zip(lst, sup))
        out.append(d)
    return out

def case(st, seed, i, want, wd, C):
    rng = random.Random('%s-%d' % (seed, i))
    kind = rng.choice(['small', 'medium', 'medium', 'expr', 'expr', 'prec', 'nullable', 'codes', 'error', 'midrule'])
    S = gengram.gen(rng, kind)
    for r in S.rules:
        while r['rhs'] and r['rhs'][-1] == ('m',): r['rhs'].pop()
    txt = gengram.yacc_text(S)
    C.files['g.y'] = txt; C.cmd = 'byacc -B -d g.y'
    rc, err, o = byacc(st['exe'], txt, wd, ['-B', '-d'], ['y.tab.c', 'y.tab.h'])
    C.files['stderr'] = err; C.files['y.tab.c'] = o['y.tab.c'] or ''
    P = 'C05' if want is None or 'C05' in want else sorted(want)[0]
    if rc or o['y.tab.c'] is None: raise Mismatch(P, 'byacc -B fails: rc=%d %s' % (rc, err[-300:]))
    T = byacc_e2e.tables(o['y.tab.c'])
    g, rprec, sprec = gengram.model(S)
    code = byacc_e2e.code_of(S, {'h': o['y.tab.h']})
    L = lalrlib.Lalr(g); E = expected(L, rprec, sprec)
    C.nontrivial = any(v and any(u == 1 for _, u in v) for d in E for v in d.values())
    C.note = '%s grammar, %d rules, %d states, -B' % (kind, len(g.rules) - 1, len(L.states))
    mp = {0: 0}; todo = [0]
    ncodes = sorted(set(range(0, 300)) | set(code.values()) | {max(code.values()) + 1, 1000})
    ids = {g.rules[r][0]: T['yylhs'][r] for r in range(1, len(g.rules))}
    while todo:
        s = todo.pop(); q = mp[s]
        def reach(x, t, got):
            if not 0 <= got < len(T['yydefred']): raise Mismatch(P, 'state number %d out of range' % got)
            if t in mp:
                if mp[t] != got: raise Mismatch(P, 'state %d on %s leads to state %d, elsewhere the same items are state %d' % (q, x, got, mp[t]))
            elif got in mp.values(): raise Mismatch(P, 'state %d on %s leads to state %d, which holds other items' % (q, x, got))
            else: mp[t] = got; todo.append(t)
        for x, t in L.goto[s].items():
            if g.isn(x):
                if x in ids and ids[x] >= 0: reach(x, t, byacc_e2e.decode_goto(T, q, ids[x]))
        d = T['yydefred'][q]
        if d:
            rs = {a[1] if a[0] == 'r' else 'shift' for x, v in E[s].items() if v for a, u in v if u < 2}
            if rs - {d} and not any(v is None for v in E[s].values()): raise Mismatch(P, 'state %d reduces by rule %d without looking at the token, but also has %s' % (q, d, sorted(map(str, rs - {d}))))
            continue
        for x, v in E[s].items():
            if v is None or x not in code: continue
            c = code[x]; got = options(T, q, c); n = byacc_e2e.decode_tok(T, q, c, False)
            kept = [a for a, u in v if u == 0]; tr = [a for a, u in v if u == 1]
            if kept and tr: continue
            if tr:
                if got is None or isinstance(got[0], str): raise Mismatch(P, 'state %d, token %d: the conflict has no list of alternatives (%s)' % (q, c, got))
                es = [a[1] for a in tr if a[0] == 's']; er = [a[1] for a in tr if a[0] == 'r']
                if (got[0] is None) != (not es) or got[1] != er: raise Mismatch(P, 'state %d, token %d: the alternatives are shift %s and rules %s; expected %s shift and rules %s' % (q, c, got[0], got[1], 'a' if es else 'no', er))
                if es: reach(c, es[0], got[0])
            else:
                if got is not None: raise Mismatch(P, 'state %d, token %d: alternatives %s but no conflict' % (q, c, got))
                if kept:
                    a = kept[0]
                    if n[0] != a[0] or a[0] == 'r' and n[1] != a[1]: raise Mismatch(P, 'state %d, token %d: %s, expected %s' % (q, c, n, a))
                    if a[0] == 's': reach(c, a[1], n[1])
                elif n != ('x',): raise Mismatch(P, 'state %d, token %d: %s, expected an error' % (q, c, n))
        have = {code[x] for x in E[s] if x in code}
        for c in ncodes:
            if c in have: continue
            if options(T, q, c) is not None: raise Mismatch(P, 'state %d, code %d: alternatives %s but no action' % (q, c, options(T, q, c)))
            if byacc_e2e.decode_tok(T, q, c, False) != ('x',): raise Mismatch(P, 'state %d, code %d: %s, expected an error' % (q, c, byacc_e2e.decode_tok(T, q, c, False)))
