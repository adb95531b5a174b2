"""End-to-end bounded check of byacc (the real program, built from /repo's working tree) against lalrlib on generated grammars.
Every comparison is on observable output: y.output, the parser tables of y.tab.c, y.tab.h, messages and exit status."""
import os, re, subprocess, sys, random, shutil, json
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import gengram, lalrlib

REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = ['closure', 'error', 'graph', 'lalr', 'lr0', 'main', 'mkpar', 'mstring', 'output', 'reader', 'btyaccpar', 'symtab', 'verbose', 'warshall']

def build(dst, defs=(), cc='gcc', opt='-O1', san=False):
    """compile byacc (YYBTYACC configuration) from /repo into dst"""
    os.makedirs(dst, exist_ok=True)
    exe = os.path.join(dst, 'yacc')
    flags = ['-I', REPO + '/byacc', '-DHAVE_CONFIG_H', '-DYYBTYACC=1', '-DYYPATCH=1', opt, '-w', '-g'] + list(defs)
    sf = '-fsanitize=address' if san == 'address' else '-fsanitize=address,undefined'
    if san: flags += [sf, '-fno-sanitize-recover=undefined', '-fno-omit-frame-pointer']
    ps = []
    for s in SRC:
        ps.append(subprocess.Popen([cc] + flags + ['-c', '%s/byacc/%s.c' % (REPO, s), '-o', '%s/%s.o' % (dst, s)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT))
    for p in ps:
        o, _ = p.communicate()
        if p.returncode: raise RuntimeError('compile failed: ' + o.decode()[-2000:])
    lk = [cc] + ([sf] if san else []) + ['%s/%s.o' % (dst, s) for s in SRC] + ['-o', exe]
    subprocess.run(lk, check=True)
    return exe

class Mismatch(Exception):
    def __init__(self, prop, what): self.prop = prop; self.what = what; Exception.__init__(self, '%s: %s' % (prop, what))

def run(exe, text, wd, opts=('-v', '-d'), env=None):
    os.makedirs(wd, exist_ok=True)
    for f in ('y.tab.c', 'y.tab.h', 'y.output'):
        try: os.unlink(os.path.join(wd, f))
        except OSError: pass
    open(os.path.join(wd, 'g.y'), 'w').write(text)
    p = subprocess.run([exe] + list(opts) + ['g.y'], cwd=wd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60, env=dict(os.environ, TMPDIR=wd, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1', **(env or {})))
    rd = lambda f: open(os.path.join(wd, f), errors='replace').read() if os.path.exists(os.path.join(wd, f)) else None
    return {'rc': p.returncode, 'err': p.stderr.decode(errors='replace'), 'c': rd('y.tab.c'), 'h': rd('y.tab.h'), 'out': rd('y.output')}

def tables(c):
    T = {}
    for m in re.finditer(r'static const YYINT (yy\w+)\[\] = \{([^}]*)\}', c):
        T[m.group(1)] = [int(x) for x in m.group(2).replace('\n', ' ').split(',') if x.strip()]
    for k in ('YYFINAL', 'YYMAXTOKEN', 'YYTABLESIZE', 'YYUNDFTOKEN'):
        m = re.search(r'#define %s (-?\d+)' % k, c)
        if m: T[k] = int(m.group(1))
    m = re.search(r'yyname\[\] = \{(.*?)\n\};', c, re.S)
    if m: T['yyname_raw'] = m.group(1)
    m = re.search(r'yyrule\[\] = \{(.*?)\n\};', c, re.S)
    if m: T['yyrule'] = [x for x in re.findall(r'^"((?:[^"\\]|\\.)*)",$', m.group(1), re.M)]
    return T

def decode_tok(T, s, tok, dflt=True):
    if dflt and T['yydefred'][s]: return ('r', T['yydefred'][s])
    for nm, k in (('yysindex', 's'), ('yyrindex', 'r')):
        n = T[nm][s]
        if n:
            n += tok
            if 0 <= n <= T['YYTABLESIZE'] and n < len(T['yycheck']) and T['yycheck'][n] == tok: return (k, T['yytable'][n])
    return ('x',)

def decode_goto(T, s, nt):
    n = T['yygindex'][nt]
    if n:
        n += s
        if 0 <= n <= T['YYTABLESIZE'] and n < len(T['yycheck']) and T['yycheck'][n] == s: return T['yytable'][n]
    return T['yydgoto'][nt]

def parse_out(txt):
    """y.output -> list of states {items: [(lhs, rule, dot, text)], acts: {sym: act}, dflt, gotos}"""
    states = {}
    cur = None
    for l in txt.split('\n'):
        m = re.match(r'state (\d+)$', l)
        if m:
            if int(m.group(1)) in states: raise Mismatch('C01', 'state %s listed twice' % m.group(1))
            cur = states[int(m.group(1))] = {'items': [], 'acts': {}, 'gotos': {}, 'dflt': None, 'dups': []}; continue
        if cur is None or not l.startswith('\t'):
            if re.match(r'\d+ terminals|Rules never reduced|Unused|State \d+ contains', l): cur = None
            continue
        m = re.match(r'\t(\S+) :(.*)  \((\d+)\)$', l)
        if m:
            toks = m.group(2).split(' ')[1:]
            # the dot: a token '.' (a literal dot is quoted)
            cur['items'].append((int(m.group(3)), toks.index('.'), m.group(1), tuple(t for t in toks if t != '.')))
            continue
        m = re.match(r'\t(\S+|\' \')  (shift (\d+)|reduce (\d+)(?: \[.*\])?|accept|error|goto (\d+))$', l)
        if m:
            sym = m.group(1)
            if m.group(3): a = ('s', int(m.group(3)))
            elif m.group(4): a = ('r', int(m.group(4)))
            elif m.group(5):
                if sym in cur['gotos']: raise Mismatch('C01', 'two transitions on %s' % sym)
                cur['gotos'][sym] = int(m.group(5)); continue
            elif m.group(2) == 'accept': a = ('acc',)
            else: a = ('x',)
            if sym == '.': cur['dflt'] = a
            else:
                if sym in cur['acts']: cur['dups'].append(sym)
                cur['acts'].setdefault(sym, a)
    return states

def names(S, g):
    """terminal/nonterminal display names"""
    nm = {0: '$end', 1: 'error'}
    for i, t in enumerate(S.tokens): nm[2 + i] = gengram.tname(t)
    for i, n in enumerate(S.nts): nm[g.nt + i] = n
    k = g.nt + len(S.nts); j = 1
    while k < g.nt + g.nn: nm[k] = '$$%d' % j; k += 1; j += 1
    nm[-1] = '$accept'
    return nm

def code_of(S, R):
    """external token codes from y.tab.h / literals"""
    code = {0: 0, 1: getattr(S, 'errcode', None) or 256}
    defs = dict((m.group(1), int(m.group(2))) for m in re.finditer(r'^#define (\w+) (\d+)$', R['h'] or '', re.M))
    for i, t in enumerate(S.tokens):
        if t['lit']: code[2 + i] = t['code'] if t['code'] is not None else ord(t['name'])
        elif t['name'] in defs: code[2 + i] = defs[t['name']]
    return code

CHECKS = {}
def compare(S, R, opts=(), want=None):
    """raises Mismatch(prop, what)"""
    W = lambda p: want is None or p in want
    known = {}
    lem = '-z' in opts
    g, rprec, sprec = gengram.model(S, 'lemon' if lem else 'yacc')
    if '-u' in opts: rprec = [(0, None)] * len(rprec); sprec = [(0, None)] * len(sprec)
    L = lalrlib.Lalr(g)
    acts, srs, rrs = lalrlib.resolve_byacc(L, rprec, sprec, lem)
    nm = names(S, g)
    SR, RR = sum(srs), sum(rrs)
    if R['rc'] < 0 or R['c'] is None or 'AddressSanitizer' in R['err']: raise Mismatch('*', 'byacc crashed or produced nothing: rc=%s %s' % (R['rc'], (R['err'][R['err'].find('==ERROR'):][:700] if '==ERROR' in R['err'] else R['err'][-500:])))
    T = tables(R['c'])
    for t in ('yylhs', 'yylen', 'yydefred', 'yysindex', 'yyrindex', 'yygindex', 'yydgoto', 'yytable', 'yycheck'):
        if t not in T: raise Mismatch('*', 'no table %s' % t)
    # --- C06 rules
    NR = len(g.rules)
    if W('C06'):
        if len(T['yylen']) != NR or len(T['yylhs']) != NR: raise Mismatch('C06', '%d rules expected, tables have yylen %d, yylhs %d' % (NR, len(T['yylen']), len(T['yylhs'])))
        ids = {}
        for r in range(1, NR):
            l, rhs = g.rules[r]
            if T['yylen'][r] != len(rhs): raise Mismatch('C06', 'rule %d: length %d, expected %d' % (r, T['yylen'][r], len(rhs)))
            if ids.setdefault(l, T['yylhs'][r]) != T['yylhs'][r]: raise Mismatch('C06', 'rule %d: inconsistent left side' % r)
        if T['yylhs'][0] != -1 or T['yylen'][0] != 2: raise Mismatch('C06', 'accepting rule entry')
        if len(set(ids.values())) != len(ids): raise Mismatch('C06', 'two nonterminals share a number')
        exp = ['%s : %s' % (nm[l], ' '.join(nm[x] for x in rhs)) for l, rhs in g.rules]
        exp[0] = '$accept : %s' % nm[g.start]
        if 'yyrule' in T:
            got = [re.sub(r'\\(.)', r'\1', x) for x in T['yyrule']]
            for r in range(NR):
                if r >= len(got) or got[r].rstrip() != exp[r].rstrip(): raise Mismatch('C06', 'rule text %d: %r expected %r' % (r, got[r] if r < len(got) else None, exp[r]))
    else: ids = {g.rules[r][0]: T['yylhs'][r] for r in range(1, NR)}
    code = code_of(S, R)
    # --- C07 codes
    if W('C07'):
        used = {code[1]: 'error'}
        taken = {t['code'] for t in S.tokens if t['code'] is not None} | {code[1]}
        occurs = {x[1] for r in S.rules for x in r['rhs'] if x[0] == 't'} | {r['prec'] for r in S.rules} | {i for _, ts in S.levels for i in ts} | {i for i, t in enumerate(S.tokens) if not t['lit'] or t['code'] is not None}
        for i, t in enumerate(S.tokens):
            if i not in occurs: continue
            if 2 + i not in code: raise Mismatch('C07', 'token %s has no code in the header' % t['name'])
            c = code[2 + i]
            if t['code'] is not None and c != t['code']: raise Mismatch('C07', 'token %s: code %d, declared %d' % (t['name'], c, t['code']))
            if not t['lit'] and t['code'] is None and c < 257: raise Mismatch('C07', 'token %s: automatic code %d' % (t['name'], c))
            if c in used: raise Mismatch('C07', 'tokens %s and %s share code %d' % (used[c], t['name'], c))
            used[c] = t['name']
        # automatic codes: the numbers from 257 that nobody asked for, in order of first mention
        txt = gengram.yacc_text(S); first = {}
        for m in re.finditer(r"(?<!')\bT\d+\b", txt): first.setdefault(m.group(0), m.start())
        auto = sorted((first[t['name']], code[2 + i], t['name']) for i, t in enumerate(S.tokens) if not t['lit'] and t['code'] is None and i in occurs and not t.get('recode'))
        nxt = 257
        for _, c, n in auto:
            while nxt in taken: nxt += 1
            if c != nxt: raise Mismatch('C07', 'token %s has the automatic code %d, the next free one is %d' % (n, c, nxt))
            nxt += 1
        if not re.search(r'#define YYERRCODE %d\b' % code[1], R['c']): raise Mismatch('C07', 'error token code is not %d' % code[1])
        if T.get('YYMAXTOKEN') != max([code[1]] + [code[2 + i] for i in occurs if i is not None]): raise Mismatch('C07', 'YYMAXTOKEN %s, largest code %d' % (T.get('YYMAXTOKEN'), max(code.values())))
        # token codes also listed in the report
        if R['out'] and 'symbol# value# symbol' in R['out']:
            rep = {}
            for m in re.finditer(r'^ *(\d+) +(-?\d+)  (\S+|\' \')$', R['out'].split('symbol# value# symbol')[1], re.M): rep[m.group(3)] = int(m.group(2))
            for i, t in enumerate(S.tokens):
                if i in occurs and rep.get(gengram.tname(t)) != code[2 + i]: raise Mismatch('C07', 'report lists %s with code %s, header %d' % (t['name'], rep.get(gengram.tname(t)), code[2 + i]))
    out = parse_out(R['out']) if R['out'] else None
    # --- C01 states
    if W('C01') and out is not None:
        if sorted(out) != list(range(len(out))): raise Mismatch('C01', 'state numbers')
        exp = {}
        seen = {}
        for s, st in out.items():
            k = frozenset((r, d) for r, d, _, _ in st['items'] if d > 0 or r == 0)
            if k in seen: raise Mismatch('C01', 'states %d and %d have the same kernel' % (seen[k], s))
            seen[k] = s
            for r, d, l, syms in st['items']:
                e = [nm[x] for x in g.rules[r][1]]
                if r == 0: e.append('$end')
                if (l, list(syms)) != (nm[g.rules[r][0]], e): raise Mismatch('C01', 'state %d: item of rule %d reads %s : %s' % (s, r, l, ' '.join(syms)))
        for k in seen:
            if k not in L.index: raise Mismatch('C01', 'state %d is not reachable: kernel %s' % (seen[k], sorted(k)))
        for k in L.index:
            if k not in seen: raise Mismatch('C01', 'missing state with kernel %s' % sorted(k))
        mp = {L.index[k]: s for k, s in seen.items()}
        rn = {v: k for k, v in nm.items()}
        for s in range(len(L.states)):
            eg = {nm[x]: mp[t] for x, t in L.goto[s].items() if g.isn(x)}
            if out[mp[s]]['gotos'] != eg: raise Mismatch('C01', 'state %d: gotos %s expected %s' % (mp[s], out[mp[s]]['gotos'], eg))
            for x, t in L.goto[s].items():
                if not g.isn(x):
                    a = out[mp[s]]['acts'].get(nm[x])
                    if a and a[0] == 's' and a[1] != mp[t]: raise Mismatch('C01', 'state %d: shift on %s goes to %d, expected %d' % (mp[s], nm[x], a[1], mp[t]))
                    if acts[s][x][0] == 's' and (not a or a[0] != 's'): raise Mismatch('C01', 'state %d: no transition on %s' % (mp[s], nm[x]))
    # --- walk the tables against the model
    ns = len(T['yydefred'])
    m = {0: 0}; todo = [0]
    final = L.goto[0].get(g.start)
    while todo:
        s = todo.pop(); q = m[s]
        if not (0 <= q < ns): raise Mismatch('C05', 'state number %d out of range' % q)
        la = acts[s]
        reds = {a[1] for a in la.values() if a[0] == 'r'}
        d = T['yydefred'][q]
        errs = [x for x in la if la[x][0] == 'x']
        for x in range(g.nt):
            a = la.get(x)
            if x not in code: continue
            if s == final and x == 0: continue      # accepted by the driver
            if x == 1 and a is None and not d: pass
            got = decode_tok(T, q, code[x])
            if a is None or a[0] == 'x':
                if got == ('x',): continue
                if got[0] == 'r' and got[1] in reds and d:
                    if a is not None:
                        if W('C03') and not (got[1] == d and reds == {d}): raise Mismatch('C03', 'state %d: %s is a non-associativity error but rule %d is reduced' % (q, nm[x], got[1]))
                        if W('C03'): known['nonassoc-default'] = known.get('nonassoc-default', 0) + 1
                    continue
                p = 'C04' if d else 'C02' if got[0] == 'r' else 'C05'
                if W(p): raise Mismatch(p, 'state %d on %s: %s, expected error' % (q, nm[x], got))
            elif a[0] == 's':
                if got[0] != 's':
                    p = 'C04' if d else 'C03' if any(x in v for v in L.red[s].values()) else 'C05'
                    if W(p): raise Mismatch(p, 'state %d on %s: %s, expected a shift' % (q, nm[x], got))
                    continue
                t = got[1]
                if a[1] in m:
                    if m[a[1]] != t and W('C05'): raise Mismatch('C05', 'state %d on %s: shift to %d, expected %d' % (q, nm[x], t, m[a[1]]))
                else:
                    if t in m.values() and W('C05'): raise Mismatch('C05', 'state %d on %s: shift to %d which is another item set' % (q, nm[x], t))
                    m[a[1]] = t; todo.append(a[1])
            else:
                if a[1] == 0: continue
                if got != a:
                    cands = [r for r in L.red[s] if x in L.red[s][r]]
                    confl = len(cands) + (x in L.goto[s]) > 1
                    p = 'C04' if d else 'C03' if confl else 'C02'
                    if W(p): raise Mismatch(p, 'state %d on %s: %s, expected reduce %d' % (q, nm[x], got, a[1]))
        # default reduction must be the state's only action
        if W('C04') and d:
            if any(a[0] == 's' for x, a in la.items()): raise Mismatch('C04', 'state %d: default reduction of rule %d although there is a shift' % (q, d))
            if reds != {d}: raise Mismatch('C04', 'state %d: default reduction %d, reductions %s' % (q, d, sorted(reds)))
        # codes of no token at all: must be an error unless defaulted
        if W('C05') and not d:
            allc = set(code.values())
            for c in list(range(0, 330)) + [max(allc) + k for k in range(1, 60)]:
                if c not in allc and len(code) == g.nt and decode_tok(T, q, c) != ('x',): raise Mismatch('C05', 'state %d: action %s on code %d, which is no token' % (q, decode_tok(T, q, c), c))
        for x, t in L.goto[s].items():
            if g.isn(x):
                if x not in ids: continue
                got = decode_goto(T, q, ids[x])
                if t in m:
                    if m[t] != got and W('C05'): raise Mismatch('C05', 'goto(%d,%s) = %d, expected %d' % (q, nm[x], got, m[t]))
                else:
                    if got in m.values() and W('C05'): raise Mismatch('C05', 'goto(%d,%s) = %d which is another item set' % (q, nm[x], got))
                    m[t] = got; todo.append(t)
    if final is not None and W('C05') and T.get('YYFINAL') is not None and final in m and m[final] != T['YYFINAL']: raise Mismatch('C05', 'YYFINAL is %d, expected %d' % (T['YYFINAL'], m[final]))
    # --- report and tables agree (C05)
    if W('C05') and out is not None:
        rc = {nm[x]: code[x] for x in code if x in nm}
        for s, st in out.items():
            for sym, a in st['acts'].items():
                if a == ('acc',): continue
                if sym in rc:
                    got = decode_tok(T, s, rc[sym], dflt=False)
                    if got != a and not (a == ('x',) ): raise Mismatch('C05', 'report says state %d on %s: %s; the tables say %s' % (s, sym, a, got))
            if st['dflt'] and st['dflt'][0] == 'r' and T['yydefred'][s] != st['dflt'][1]: raise Mismatch('C05', 'report default of state %d is %s, table %d' % (s, st['dflt'], T['yydefred'][s]))
            if T['yydefred'][s] and st['dflt'] != ('r', T['yydefred'][s]): raise Mismatch('C05', 'table default %d of state %d not in the report (%s)' % (T['yydefred'][s], s, st['dflt']))
            # exactly the listed actions
            for x in code:
                if nm[x] not in st['acts'] and not (x == 0 and s == T.get('YYFINAL')):
                    got = decode_tok(T, s, code[x], dflt=False)
                    if got != ('x',) : 
                        if got[0] == 'r' and st['dflt'] == got: continue
                        raise Mismatch('C05', 'tables hold %s for state %d on %s, the report has none' % (got, s, nm[x]))
    # --- C02: explicit lookaheads in states without default reduction (report)
    if W('C02') and out is not None and not any(srs) and not any(rrs) and not S.levels:
        pass
    # --- C03 counts
    if W('C03'):
        mm = re.search(r'(\d+) shift/reduce conflict', R['err']); gs = int(mm.group(1)) if mm and SRline(R['err'], 's') else 0
        gs, gr = counts(R['err'])
        if (gs, gr) != (SR, RR): raise Mismatch('C03', 'reported %d shift/reduce and %d reduce/reduce conflicts, there are %d and %d' % (gs, gr, SR, RR))
        bad = (SR + RR > 0) and ((S.expect is not None and S.expect != SR) or (S.expect_rr is not None and S.expect_rr != RR))
        if (R['rc'] != 0) != bad: raise Mismatch('C03', 'exit status %d with %d/%d conflicts, %%expect %s/%s' % (R['rc'], SR, RR, S.expect, S.expect_rr))
        # per state
        if R['out']:
            per = {}
            for mt in re.finditer(r'^State (\d+) contains (.*)\.$', R['out'], re.M):
                a = re.search(r'(\d+) shift/reduce', mt.group(2)); b = re.search(r'(\d+) reduce/reduce', mt.group(2))
                per[int(mt.group(1))] = (int(a.group(1)) if a else 0, int(b.group(1)) if b else 0)
            for s, q in m.items():
                if per.get(q, (0, 0)) != (srs[s], rrs[s]): raise Mismatch('C03', 'state %d: report counts %s conflicts, there are %s' % (q, per.get(q, (0, 0)), (srs[s], rrs[s])))
    # --- C11 unused rules
    if W('C11'):
        used = {a[1] for ac in acts for a in ac.values() if a[0] == 'r'}
        un = [r for r in range(1, NR) if r not in used]
        mt = re.search(r'(\d+) rules? never reduced', R['err']); gn = int(mt.group(1)) if mt else 0
        if gn != len(un): raise Mismatch('C11', '%d rules reported never reduced, there are %d (%s)' % (gn, len(un), un))
        if R['out']:
            sec = re.search(r'Rules never reduced:\n(.*?)\n\n', R['out'], re.S)
            got = sorted(int(x) for x in re.findall(r'\((\d+)\)$', sec.group(1), re.M)) if sec else []
            if got != sorted(un): raise Mismatch('C11', 'report lists %s as never reduced, expected %s' % (got, un))
        st = re.search(r'(\d+) terminals, (\d+) nonterminals\n(\d+) grammar rules, (\d+) states', R['out'] or '')
        if st and (int(st.group(3)), int(st.group(4))) != (NR, len(L.states)): raise Mismatch('C11', 'report totals %s, expected %d rules %d states' % (st.groups(), NR, len(L.states)))
    return {'states': len(L.states), 'SR': SR, 'RR': RR, 'rules': NR, 'known': known}

def SRline(e, k): return True
def counts(err):
    a = re.search(r'^\S*: (\d+) shift/reduce conflicts?', err, re.M); b = re.search(r'(\d+) reduce/reduce conflicts?\.', err)
    gs = int(a.group(1)) if a else 0
    gr = 0
    for l in err.split('\n'):
        m = re.match(r'\S+: (?:(\d+) shift/reduce conflicts?)?(?:, )?(?:(\d+) reduce/reduce conflicts?)?\.$', l)
        if m and (m.group(1) or m.group(2)): return int(m.group(1) or 0), int(m.group(2) or 0)
    return 0, 0

KINDS = ['small', 'small', 'medium', 'expr', 'expr', 'prec', 'nullable', 'codes', 'error', 'midrule']
def case(rng, wide=False):
    kind = 'wide' if wide else rng.choice(KINDS)
    S = gengram.gen(rng, kind)
    for r in S.rules:
        if r['rhs'] and r['rhs'][-1] == ('m',): r['rhs'].pop()
    if kind in ('codes', 'error') and rng.random() < .2:
        c = rng.choice([257, 258, 259, 300, 5, 1000])
        if all(t['code'] != c for t in S.tokens) and not any(t['lit'] and ord(t['name']) == c for t in S.tokens): S.errcode = c
    opts = ['-v', '-d']
    x = rng.random()
    if x < .1: opts.append('-z')
    elif x < .15: opts.append('-u')
    return S, opts

if __name__ == '__main__':
    seed = int(sys.argv[1]); n = int(sys.argv[2]); wide = len(sys.argv) > 3
    exe = build('/tmp/w/be2e', san='address' if wide else False)
    for i in range(n):
        rng = random.Random('%d-%d' % (seed, i)); S, opts = case(rng, wide)
        if rng.random() < .3: S.expect = rng.choice([0, 1, 2, 3])
        if rng.random() < .1: S.expect_rr = rng.choice([0, 1, 2])
        txt = gengram.yacc_text(S)
        R = run(exe, txt, '/tmp/w/be2e/run', opts)
        try: print(i, S.kind, compare(S, R, opts)) if n <= 20 else compare(S, R, opts)
        except Mismatch as e:
            print(i, S.kind, opts, 'MISMATCH', e); open('/tmp/w/be2e/bad%d.y' % i, 'w').write(txt)
        except Exception as e:
            print(i, S.kind, opts, 'EXC', repr(e), R['rc'], R['err'][-300:]); open('/tmp/w/be2e/bad%d.y' % i, 'w').write(txt); 
            import traceback; traceback.print_exc(limit=-2)
