"""Further bounded engines on lemon: generated parsers, carried text, conditional sections, names, sorting. Oracles are written from the documentation, not from the code."""
import os, re, random, subprocess
import lemon_e2e
from byacc_e2e import Mismatch
REPO = lemon_e2e.REPO

def lemon(exe, txt, wd, opts, files=('g.c', 'g.h', 'g.out')):
    for f in files:
        try: os.unlink(os.path.join(wd, f))
        except OSError: pass
    open(os.path.join(wd, 'g.y'), 'wb').write(txt if isinstance(txt, bytes) else txt.encode('latin1'))
    p = subprocess.run([exe] + list(opts) + ['-T' + REPO + '/lemon/lempar.c', 'g.y'], cwd=wd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
    out = {}
    for f in files:
        q = os.path.join(wd, f)
        out[f] = open(q, 'rb').read().decode('latin1') if os.path.exists(q) else None
    return p.returncode, p.stderr.decode('latin1'), p.stdout.decode('latin1'), out

# ------------------------------------------------------------------ L10 running parsers
def run_case(st, seed, i, want, wd, C):
    rng = random.Random('%s-%d' % (seed, i))
    kind = rng.choice(['small', 'medium', 'expr', 'prec', 'nullable', 'multi', 'nocode'])
    S = lemon_e2e.gen(rng, kind); S.expect = None
    R = [dict(r) for r in S.rules]
    err = rng.random() < .3
    nts = list(S.nts)
    if err:
        nts.append('error'); e = ('n', len(nts) - 1)
        for r in rng.sample(range(len(R)), min(len(R), rng.randint(1, 2))):
            l = R[r]['lhs']; new = rng.choice([[e], [e, ('t', rng.randrange(len(S.tokens)))], R[r]['rhs'][:1] + [e]])
            if not any(q['lhs'] == l and q['rhs'] == new for q in R): R.append({'lhs': l, 'rhs': new, 'prec': None, 'code': True})
    tdest = rng.random() < .4; ddest = rng.random() < .3
    typ = {}; dest = {}
    for n in range(len(nts)):
        if nts[n] == 'error': continue
        if rng.random() < .4: typ[n] = rng.choice(['int', 'P3', 'P40', 'long'])
        if rng.random() < .2: dest[n] = True
    deft = rng.random() < .3
    def fld(n):
        t = typ.get(n, 'long' if deft else 'int'); return '.v' if t[0] == 'P' else ''
    arg = rng.random() < .3; ctx = rng.random() < .2
    pre = rng.choice(['', '', 'TK_']); nm = rng.choice(['Parse', 'Parse', 'Foo'])
    stack = rng.choice([None, None, '0', '0', '8', '20', '1000'])
    nT = len(S.tokens)
    fb = {}; wild = None
    if rng.random() < .4 and nT >= 2:
        ts = list(range(nT)); rng.shuffle(ts); tgt = ts.pop(); 
        for t in ts[:rng.randint(1, len(ts))]: fb[t] = tgt
    if rng.random() < .3: wild = rng.randrange(nT)
    o = ['%include {', '#include <stdio.h>', '#include <stdlib.h>', '#include <assert.h>', '#include "g.h"', 'typedef struct { char pad[3]; int v; } P3; typedef struct { int v; char pad[40]; } P40;', 'static int cnt;', '}']
    o.append('%token_type {int}')
    if deft: o.append('%default_type {long}')
    if nm != 'Parse': o.append('%%name %s' % nm)
    if pre: o.append('%%token_prefix %s' % pre)
    if stack is not None: o.append('%%stack_size {%s}' % stack)
    if arg: o.append('%extra_argument {int *pArg}')
    if ctx: o.append('%extra_context {int *pCtx}')
    if tdest: o.append('%token_destructor { printf("D %d\\n", $$); }')
    if ddest: o.append('%default_destructor { printf("V\\n"); }')
    for n in typ: o.append('%%type %s {%s}' % (nts[n], typ[n]))
    for n in dest: o.append('%%destructor %s { printf("d%d %%d\\n", (int)$$%s); }' % (nts[n], n, fld(n)))
    o.append('%syntax_error { printf("E %d %d\\n", yymajor, TOKEN); }')
    o.append('%parse_accept { printf("ACCEPT\\n"); }')
    o.append('%parse_failure { printf("FAIL\\n"); }')
    o.append('%stack_overflow { printf("OVERFLOW\\n"); }')
    if fb: o.append('%%fallback T%d %s.' % (next(iter(fb.values())), ' '.join('T%d' % t for t in fb)))
    if wild is not None: o.append('%%wildcard T%d.' % wild)
    for k in S.declare: o.append('%%token T%d.' % k)
    for a, ts in S.levels: o.append('%%%s %s.' % (a, ' '.join('T%d' % k for k in ts)))
    classes = {}
    def dt(x):      # does the value of this symbol have a known type
        return x[0] != 'n' or nts[x[1]] != 'error'
    acts = {}
    for k, r in enumerate(R):
        n = len(r['rhs']); al = [None] * n; la = None
        if r['code']:
            la = 'A'
            for j, x in enumerate(r['rhs']):
                if x[0] == 'm' or (dt(x) and rng.random() < .7): al[j] = rng.choice(['B%d', 'x%d', 'Bb_%d']) % j
            same = n and al[0] and r['rhs'][0][0] == 'n' and r['rhs'][0][1] == r['lhs'] and rng.random() < .6
            if same: al[0] = 'A'
            pa = []; pv = []
            for j in range(n):
                if al[j]:
                    f = fld(r['rhs'][j][1]) if r['rhs'][j][0] == 'n' else ''
                    pa.append(('v', j, '(int)%s%s' % (al[j], f)))
                    if rng.random() < .25 and al[j] != 'A': pa.append(('m', j, '(int)@%s' % al[j]))
            rng.shuffle(pa)
            code = 'printf("R%d%s\\n"%s); A%s = ++cnt;' % (k, ' %d' * len(pa), ''.join(', ' + p[2] for p in pa), fld(r['lhs']))
            if arg: code += ' *pArg += 1;'
            if ctx: code += ' *pCtx += 1;'
            acts[k] = ([(a, j) for a, j, _ in pa], same)
        else: acts[k] = None
        def nmx(x):
            if x[0] != 'm': return nts[x[1]] if x[0] == 'n' else 'T%d' % x[1]
            if rng.random() < .3:
                if x not in classes:
                    classes[x] = 'k%d' % len(classes); o.append('%%token_class %s %s.' % (classes[x], rng.choice(['|', ' ']).join('T%d' % t for t in x[1:])))
                return classes[x]
            return '|'.join('T%d' % t for t in x[1:])
        rhs = ' '.join(nmx(x) + ('(%s)' % al[j] if al[j] else '') for j, x in enumerate(r['rhs']))
        r['als'] = al
        o.append('%s%s ::= %s.%s%s' % (nts[r['lhs']], '(A)' if la else '', rhs, ' [T%d]' % r['prec'] if r['prec'] is not None else '', ' {%s }' % code if r['code'] else ''))
    o.append('''%%code {
int main(void){ int n, c, arg = 0, ctx = 0; void *p = 0; int keep; (void)arg; (void)ctx;
  while( scanf("%%d %%d", &n, &keep)==2 ){ int k; cnt = 0;
    if( !p ) p = %sAlloc(malloc%s);
    for(k=0; k<n; k++){ if( scanf("%%d", &c)!=1 ) return 9; %s(p, c, c ? 1000+k : -1%s); }
    printf("END\\n");
    if( !keep ){ %sFree(p, free); p = 0; }
    %s%sprintf("DONE\\n"); fflush(stdout);
  }
  return 0; }
}''' % (nm, ', &ctx' if ctx else '', nm, ', &arg' if arg else '', nm, 'printf("ARG %d\\n", arg); arg = 0; ' if arg else '', 'printf("CTX %d\\n", ctx); ctx = 0; ' if ctx else ''))
    txt = '\n'.join(o) + '\n'
    opts = [x for x in ('-c', '-l', '-r') if rng.random() < .2]
    C.files['g.y'] = txt; C.cmd = 'lemon %s g.y; gcc g.c' % ' '.join(opts); C.note = '%s grammar, %d rules%s%s%s' % (kind, len(R), ', error symbol' if err else '', ', fallback' if fb else '', ', wildcard' if wild is not None else '')
    rc, er, so, f = lemon(st['exe'], txt, wd, opts)
    C.files['stderr'] = er
    if rc < 0 or f['g.c'] is None: raise Mismatch('L10', 'lemon rejects the grammar: rc=%d %s' % (rc, er[-400:]))
    er2 = [l for l in er.split('\n') if l and 'conflict' not in l and 'can not be reduced' not in l]
    C.files['g.c'] = f['g.c']; C.files['g.h'] = f['g.h'] or ''
    if er2: raise Mismatch('L10', 'lemon complains: %s' % '; '.join(er2)[-400:])
    T = lemon_e2e.tables(f['g.c'])
    p = subprocess.run(['gcc', '-w', '-O0'] + (['-fsanitize=address,undefined', '-fno-sanitize-recover=undefined'] if i % 16 == 0 else []) + ['-o', 'p.exe', 'g.c'], cwd=wd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode: raise Mismatch('L10', 'the generated parser does not compile: %s' % p.stdout.decode()[-400:])
    code = {m.group(1): int(m.group(2)) for m in re.finditer(r'^ *(\w+) *= *(\d+),?$', f['g.h'] or '', re.M)}
    tc = {k: code[pre + 'T%d' % k] for k in range(nT) if pre + 'T%d' % k in code}
    txts = {}
    for k, r in enumerate(R):
        txts[('%s ::= %s' % (nts[r['lhs']], ' '.join('|'.join('T%d' % t for t in x[1:]) if x[0] != 'n' else nts[x[1]] for x in r['rhs']))).rstrip()] = k
    # rule names print the members of a class
    what = []
    for q, t in enumerate(T['rules']):
        if t.rstrip() not in txts: raise Mismatch('L10', 'rule %r of the generated parser is none of the grammar' % t)
        what.append(txts[t.rstrip()])
    if -T['yyRuleInfoNRhs'][0] != len(R[what[0]]['rhs']): raise Mismatch('L10', 'length of rule 0')
    names = T['names']
    M = {'T': T, 'R': R, 'what': what, 'acts': acts, 'tc': tc, 'fb': {tc[a]: tc[b] for a, b in fb.items() if a in tc and b in tc}, 'wild': tc.get(wild) if wild is not None else None, 'tdest': tdest, 'ddest': ddest, 'dest': dest, 'nts': nts,
         'err': names.index('error') if 'error' in names and re.search(r'#define YYERRORSYMBOL', f['g.c']) else None, 'arg': arg, 'ctx': ctx, 'depth': (100 if stack is None else int(stack)), 'ncode': {x: names.index(x) for x in names}}
    toks = list(tc.values())
    if not toks: return
    sents = []; tries = 0
    while len(sents) < 16 and tries < 60:
        tries += 1
        P = Par(M)
        ok = True; s = []; first = True; exp = []
        n = rng.choice([0, 1, 2, 4, 8, 8, 20, 20, 60] + ([300] if stack in ('0', '1000') else []))
        bias = rng.choice([.5, .9, .97, 1])
        while ok and not P.dead and len(s) < n:
            c = rng.choice(toks)
            if rng.random() < bias:
                for t in rng.sample(toks, min(len(toks), 12)):
                    if P.viable(t): c = t; break
            ok = P.feed(c, 1000 + len(s)); s.append(c)
        if ok and not P.dead:
            ok = P.feed(0, -1); s.append(0)
        if not ok: continue
        keep = P.accepted and not P.dead and P.errs == 0 and rng.random() < .5
        P.end(keep)
        sents.append((s, 1 if keep else 0, P.out))
        if len(s) > 6 or P.errs: C.nontrivial = True
    inp = ''.join('%d %d %s\n' % (len(s), k, ' '.join(map(str, s))) for s, k, _ in sents)
    res = subprocess.run(['./p.exe'], cwd=wd, input=inp.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=20)
    got = res.stdout.decode().split('\n'); pos = 0
    for s, k, exp in sents:
        for d, x in enumerate(exp):
            y = got[pos] if pos < len(got) and got[pos] else 'killed: %s' % res.stderr.decode()[-300:]
            pos += 1
            if y == x: continue
            a, b = x.split(' '), y.split(' ')
            if len(a) == len(b) and all(u == v or u == '?' for u, v in zip(a, b)): continue
            C.files['input'] = '%d %d %s\n' % (len(s), k, ' '.join(map(str, s))); C.files['expected'] = '\n'.join(exp); C.files['got'] = '\n'.join(got[max(0, pos - d - 1):pos + 5])
            raise Mismatch('L10', 'input %s: step %d is %r, the automaton gives %r' % (' '.join(names[c] for c in s), d, y, x))
class Par:
    """runs the tables of a generated parser the way the documentation describes it"""
    def __init__(self, M):
        self.M = M; self.T = M['T']; self.st = [(0, 0, '?')]; self.out = []; self.cnt = 0; self.errcnt = -1; self.dead = False; self.accepted = False; self.errs = 0; self.narg = 0; self.steps = 0
    def find(self, tok, q):
        T, M = self.T, self.M
        if q > T['YY_MAX_SHIFT']: return q
        def at(t):
            k = T['yy_shift_ofst'][q] + t
            if not 0 <= k < len(T['yy_lookahead']): raise Mismatch('L10', 'index %d outside the tables' % k)
            return T['yy_action'][k] if T['yy_lookahead'][k] == t else None
        a = at(tok)
        if a is None and tok in M['fb']: tok = M['fb'][tok]; a = at(tok)
        if a is None and M['wild'] is not None and tok > 0: a = at(M['wild'])
        return T['yy_default'][q] if a is None else a
    def goto(self, q, nt):
        T = self.T
        if q > T['YY_REDUCE_COUNT']: return T['yy_default'][q]
        k = T['yy_reduce_ofst'][q] + nt
        if 0 <= k < len(T['yy_action']) and T['yy_lookahead'][k] == nt: return T['yy_action'][k]
        return T['yy_default'][q]
    def viable(self, t):
        """does the token get shifted from here (copy of the state stack only)"""
        T = self.T; st = [e[0] for e in self.st]
        for _ in range(200):
            a = self.find(t, st[-1])
            if a >= T['YY_MIN_REDUCE']:
                r = a - T['YY_MIN_REDUCE']; n = -T['yyRuleInfoNRhs'][r]
                if n: del st[len(st) - n:]
                st.append(self.goto(st[-1], T['yyRuleInfoLhs'][r]))
            else: return a <= T['YY_MAX_SHIFTREDUCE']
        return False
    def destroy(self, major, v):
        M = self.M; x = self.T['names'][major] if major < len(self.T['names']) else None
        if x is None or major == 0: return
        if x not in M['nts'] :
            if M['tdest']: self.out.append('D %s' % v)
            return
        n = M['nts'].index(x)
        if n in M['dest']: self.out.append('d%d %s' % (n, v))
        elif M['ddest']: self.out.append('V')
    def popall(self):
        while len(self.st) > 1:
            q, m, v = self.st.pop(); self.destroy(m, v)
    def full(self):
        d = self.M['depth']
        return d > 0 and len(self.st) >= d
    def overflow(self):
        self.popall(); self.out.append('OVERFLOW'); self.dead = True
    def shift(self, a, major, v):
        if self.full(): self.overflow(); return
        if a > self.T['YY_MAX_SHIFT']: a += self.T['YY_MIN_REDUCE'] - self.T['YY_MIN_SHIFTREDUCE']
        self.st.append((a, major, v))
    def feed(self, tok, val):
        T, M = self.T, self.M; hit = False
        while True:
            self.steps += 1
            if self.steps > 6000: return False
            a = self.find(tok, self.st[-1][0])
            if a >= T['YY_MIN_REDUCE']:
                r = a - T['YY_MIN_REDUCE']; k = M['what'][r]; rule = M['R'][k]; n = len(rule['rhs'])
                if n == 0 and self.full(): self.overflow(); return True
                v = self.st[len(self.st) - n:] if n else []
                nv = v[0][2] if n else '?'
                # symbols without a label are destroyed: the first before the action, the others after it (members of a token class are not)
                def val_of(j):
                    x = rule['rhs'][j]      # a skipped unit rule leaves the value of another symbol here
                    return v[j][2] if x[0] != 'n' or v[j][1] == M['ncode'][M['nts'][x[1]]] else '?'
                def kill(j):
                    x = rule['rhs'][j]
                    if rule['als'][j] is None and x[0] != 'm': self.destroy(M['ncode'][M['nts'][x[1]]] if x[0] == 'n' else M['tc'][x[1]], val_of(j))
                if n: kill(0)
                if M['acts'][k] is not None:
                    ar, same = M['acts'][k]
                    self.out.append('R%d%s' % (k, ''.join(' %s' % (val_of(j) if w == 'v' else v[j][1]) for w, j in ar)))
                    self.cnt += 1; nv = self.cnt; self.narg += 1
                for j in range(1, n): kill(j)
                if M['acts'][k] is None and not (n and False): nv = '?'
                if n: del self.st[len(self.st) - n:]
                g = self.goto(self.st[-1][0], T['yyRuleInfoLhs'][r])
                if g == T['YY_ERROR_ACTION'] or T['YY_MAX_SHIFT'] < g <= T['YY_MAX_SHIFTREDUCE']: raise Mismatch('L10', 'no goto after rule %s' % T['rules'][r])
                self.st.append((g, T['yyRuleInfoLhs'][r], nv))
            elif a <= T['YY_MAX_SHIFTREDUCE']:
                self.shift(a, tok, val); self.errcnt -= 1; return True
            elif a == T['YY_ACCEPT_ACTION']:
                self.st.pop(); self.out.append('ACCEPT'); self.accepted = True; self.errcnt = -1
                return True
            else:
                if M['err'] is None:
                    if self.errcnt <= 0: self.out.append('E %d %s' % (tok, val))
                    self.errs += 1
                    self.errcnt = 3; self.destroy(tok, val)
                    if tok == 0: self.popall(); self.out.append('FAIL'); self.dead = True
                    return True
                if self.errcnt < 0: self.out.append('E %d %s' % (tok, val))
                self.errs += 1
                top = self.st[-1][1]
                if top == M['err'] or hit:
                    self.destroy(tok, val); self.errcnt = 3
                    return True
                act = None
                while len(self.st) > 1:
                    act = self.goto(self.st[-1][0], M['err'])
                    if act <= T['YY_MAX_SHIFTREDUCE']: break
                    q, m, v = self.st.pop(); self.destroy(m, v)
                if len(self.st) <= 1 or tok == 0:
                    self.destroy(tok, val); self.popall(); self.out.append('FAIL'); self.dead = True; return True
                self.shift(act, M['err'], val)
                if self.dead: return False
                self.errcnt = 3; hit = True
    def end(self, keep):
        self.out.append('END')
        if not keep: self.popall()
        if self.M['arg']: self.out.append('ARG %d' % self.narg)
        if self.M['ctx']: self.out.append('CTX %d' % self.narg)
        self.out.append('DONE')

# ------------------------------------------------------------------ L11 conditional sections
def cond_case(st, seed, i, want, wd, C):
    rng = random.Random('%s-%d' % (seed, i))
    base = ['A', 'B', 'AB', 'ABC', 'A_1', 'A_', 'x', 'Xy', 'foo', 'foo_bar', 'F' * rng.choice([1, 20, 300])]
    defs = [d for d in base if rng.random() < .45]
    extra = ['Z%d' % k for k in range(rng.choice([0, 0, 3, 40]))]
    def expr(d):
        x = rng.random()
        sp = lambda: rng.choice(['', '', ' ', '  ', '\t'])
        if d <= 0 or x < .3:
            n = rng.choice(base); return n, n in defs
        if x < .45:
            t, v = expr(d - 1)
            # ! binds to one operand: a name, a parenthesis or another !
            if not re.match(r'^[\s!]*(\w+|\(.*\))$', t) or not atom(t): t = '(' + t + ')'
            return '!' + sp() + t, not v
        if x < .6:
            t, v = expr(d - 1); return '(' + sp() + t + sp() + ')', v
        op = rng.choice(['&&', '||']); a, va = expr(d - 1); b, vb = expr(d - 1)
        if op == '&&':
            if has_or(a): a = '(' + a + ')'
            if has_or(b): b = '(' + b + ')'
            return a + sp() + '&&' + sp() + b, va and vb
        return a + sp() + '||' + sp() + b, va or vb
    def has_or(t):
        d = 0
        for k, c in enumerate(t):
            if c == '(': d += 1
            elif c == ')': d -= 1
            elif c == '|' and d == 0: return True
        return False
    def atom(t):
        d = 0
        for k, c in enumerate(t):
            if c == '(': d += 1
            elif c == ')': d -= 1
            elif c in '|&' and d == 0: return False
        return True
    lines = []; keep = []
    def text():
        return rng.choice(['', 's ::= A%d.' % rng.randint(0, 9), '  %endif ', ' %else', '%token T.', 'x %ifdef A', '%elsewhere', '%endifx', '%iffy', '%', '{ code %d }' % rng.randint(0, 99), '// ' + 'y' * rng.choice([1, 30, 500]), '%ifdefA'])
    def block(on, depth, n):
        for _ in range(rng.randint(0, n)):
            if depth and rng.random() < .4:
                k = rng.choice(['%ifdef', '%ifndef', '%if'])
                t, v = expr(rng.choice([0, 0, 1, 2, 3, 5])) if k == '%if' or rng.random() < .3 else (lambda q: (q, q in defs))(rng.choice(base))
                if k == '%ifndef': v = not v
                lines.append('%s %s%s' % (k, t, rng.choice(['', ' ']))); keep.append(None)
                block(on and v, depth - 1, n)
                if rng.random() < .5:
                    lines.append('%else' + rng.choice(['', ' ', '   '])); keep.append(None)
                    block(on and not v, depth - 1, n)
                lines.append('%endif' + rng.choice(['', ' ', ' comment'])); keep.append(None)
            else:
                t = text(); lines.append(t); keep.append(t if on else None)
    block(True, rng.choice([1, 2, 3, 6]), 5)
    lines.append('last.'); keep.append('last.')
    nl = '\n'
    txt = nl.join(lines) + nl
    opts = ['-D' + d + rng.choice(['', '', '=1']) for d in defs + extra]; rng.shuffle(opts)
    C.files['g.y'] = txt; C.cmd = 'lemon -E %s g.y' % ' '.join(opts); C.note = '%d lines, %d conditions' % (len(lines), sum(l.startswith('%if') for l in lines)); C.nontrivial = any(k is None for k in keep)
    open(os.path.join(wd, 'g.y'), 'w').write(txt)
    p = subprocess.run([st['exe'], '-E'] + opts + ['g.y'], cwd=wd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=30)
    out = p.stdout.decode('latin1'); C.files['stdout'] = out; C.files['stderr'] = p.stderr.decode('latin1')
    if p.returncode < 0: raise Mismatch('L11', 'lemon -E fails: rc=%d %s' % (p.returncode, p.stderr.decode()[-300:]))
    if p.stderr.strip() and b'syntax error' in p.stderr: raise Mismatch('L11', 'rejected: %s' % p.stderr.decode()[-300:])
    got = out.split('\n')
    for k, e in enumerate(keep):
        g = got[k] if k < len(got) else None
        if g is None or (e is None and g.strip()) or (e is not None and g != e):
            raise Mismatch('L11', 'line %d %r %s' % (k + 1, lines[k], 'is dropped or changed: %r' % g if e is not None else 'is kept: %r' % g))
    if any(x.strip() for x in got[len(keep):]): raise Mismatch('L11', 'extra text after the last line')

# ------------------------------------------------------------------ L12 carried text
def text_case(st, seed, i, want, wd, C):
    rng = random.Random('%s-%d' % (seed, i))
    sizes = [0, 1, 2, 3, 5, 8, 15, 16, 31, 32, 63, 64, 70, 79, 80, 81, 99, 100, 119, 120, 121, 127, 128, 199, 200, 201, 255, 256, 279, 280, 281, 360, 400, 511, 512, 600, 1000, 1023, 1024, 2000, 4095, 4096, 9000]
    def size(): return max(0, rng.choice(sizes) + rng.choice([-2, -1, 0, 0, 0, 1, 2]))
    AL = 'abcdefghijklmnopqrstuvwxyzCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_ ()+-*;,.<>[]!&|^~?:='
    def word(al): return rng.choice(al)
    def body(n, labels=()):
        o = []; k = 0
        while k < n:
            x = rng.random()
            if x < .02: s = '\n'
            elif x < .04: s = '"' + ''.join(rng.choice(AL + '{}$%@/') for _ in range(rng.randint(0, 20))) + '"'
            elif x < .05: s = '/*' + ''.join(rng.choice(AL + '{$%@"\'') for _ in range(rng.randint(0, 20))).replace('*', '.') + '*/'
            elif x < .055: s = "'{'"
            elif x < .06: s = '//' + ''.join(rng.choice(AL) for _ in range(rng.randint(0, 20))) + '\n'
            elif x < .08: s = rng.choice(['%d', '%s', '%%', '%d%d', '$$', '@', '$1', '\\n', '{}', '{ {} }'])
            elif labels and x < .16: s = rng.choice(['', ' ', '@', '(', '_', '1', 'z', '"', '->']) + rng.choice(labels) + rng.choice(['', ' ', '.x', '->y', ')', '_', '9', 'q', ';', '%d', '"', '@'])
            else: s = rng.choice(AL)
            # quotes must stay balanced for the scanner
            if s.count('"') % 2: s = s.replace('"', '')
            o.append(s); k += len(s)
        return ''.join(o)
    n = rng.choice([0, 1, 2, 3, 5, 12])
    rhs = []; labs = []
    pool = ['A', 'B', 'BB', 'B1', 'x', 'Lab_2', 'L' * rng.choice([1, 40, 64, 200]), 'Zz', 'C0', 'C1', 'C2', 'C3', 'C4', 'C5']
    rng.shuffle(pool)
    lhsl = pool.pop()
    for j in range(n):
        x = rng.choice(['T1', 'T2', 'q'])
        l = pool.pop() if rng.random() < .7 else None
        rhs.append(x); labs.append(l)
    same = n and labs[0] and rhs[0] == 'q' and rng.random() < .3
    if same: labs[0] = lhsl
    L = sorted({x for x in labs + [lhsl] if x})
    over = n and labs[0] and not same and rng.random() < .3
    head = ''; tail = ''
    code = body(size(), L)
    comment = '/*%s-overwrites-%s*/' % (lhsl, labs[0]) if over else ''
    # every label is used, in the order that lemon demands (nothing after the overwriting comment names the first symbol)
    for l in L: code = rng.choice([' ', ';', '(', '\n']) + l + rng.choice([' ', ';', ')', '%']) + code if rng.random() < .5 or (over and l == labs[0]) else code + rng.choice([' ', ';', '(']) + l + rng.choice(['', ' ', ';', ')'])
    if over: code = code + ' ' + comment + body(size(), [l for l in L if l != labs[0]])
    if over and re.search(r'(?<![A-Za-z0-9_])%s(?![A-Za-z0-9_])' % re.escape(labs[0]), code.split(comment, 1)[1]): return   # lemon rightly refuses that
    parts = {}
    o = []
    def directive(nm, multi=False):
        b = body(size()); 
        parts[nm] = b; o.append('%%%s {%s}' % (nm, b))
    for nm in ('include', 'code', 'syntax_error', 'parse_accept', 'parse_failure', 'stack_overflow'):
        if rng.random() < .25: directive(nm)
    tt = rng.random() < .3
    if tt: o.append('%%token_type {%s}' % ('int ' + '*' * (size() % 300)))
    dl = {}
    if rng.random() < .3:
        b = body(size()); o.append('%%destructor q {%s}' % b); dl['q'] = b
    o.append('p ::= q.')
    o.append('q(%s) ::= %s. {%s}' % (lhsl, ' '.join(x + ('(%s)' % l if l else '') for x, l in zip(rhs, labs)), code))
    other = body(size()); o.append('q ::= T1 T1 T2 T2 T1 T2. {%s}' % other)
    tx = '\n'.join(o) + '\n'
    if rng.random() < .5: tx = tx.rstrip('\n')
    C.files['g.y'] = tx; C.cmd = 'lemon -l g.y'; C.note = 'code of %d characters, %d labels' % (len(code), len(L))
    if not balanced(tx): return
    rc, er, so, f = lemon(st['exe'], tx, wd, ['-l'])
    C.files['stderr'] = er; c = f['g.c']
    er2 = [l for l in er.split('\n') if l and 'conflict' not in l and 'can not be reduced' not in l]
    if rc < 0 or c is None: raise Mismatch('L12', 'lemon fails: rc=%d %s' % (rc, er[-300:]))
    C.files['g.c'] = c
    if er2: raise Mismatch('L12', 'lemon complains: %s' % '; '.join(er2)[-300:])
    # what each label stands for: read off the generated text itself, checked by position
    direct = n == 0 or labs[0] is None or same or over
    def sub(code, lhs_first=True):
        out = []; k = 0; done = False
        while k < len(code):
            if over and not done and code.startswith(comment, k): out.append(re.escape(comment)); k += len(comment); done = True; continue
            m = re.compile(r'[A-Za-z][A-Za-z0-9_]*').match(code, k)
            if m and (k == 0 or not re.match(r'[A-Za-z0-9_]', code[k - 1])):
                w = m.group(0)
                if w == lhsl:
                    out.append(r'yymsp\[%d\]\.minor\.yy\d+' % (1 - n) if direct else r'yylhsminor\.yy\d+'); k = m.end()
                    if k < len(code): out.append(re.escape(code[k])); k += 1     # the character behind a label is never the start of a label
                    continue
                if w in labs:
                    j = labs.index(w)
                    if k and code[k - 1] == '@': out.pop(); out.append(r'yymsp\[%d\]\.major' % (j - n + 1))
                    else: out.append(r'yymsp\[%d\]\.minor\.yy\d+' % (j - n + 1))
                    k = m.end()
                    if k < len(code): out.append(re.escape(code[k])); k += 1
                    continue
            out.append(re.escape(code[k])); k += 1
        return ''.join(out)
    if '@' + lhsl in code: return
    if not re.search(r'\{' + sub(code) + r'\}\n', c): raise Mismatch('L12', 'the code of the rule (%d characters) is not carried as written' % len(code))
    if n and not direct and not re.search(r'yymsp\[%d\]\.minor\.yy\d+ = yylhsminor\.yy\d+;' % (1 - n), c): raise Mismatch('L12', 'the left side value is not stored')
    if other.strip() and '{' + other + '}' not in c: raise Mismatch('L12', 'the code of the rule without labels (%d characters) is not carried as written' % len(other))
    for k, v in parts.items():
        if v.lstrip() not in c: raise Mismatch('L12', 'the text of %%%s (%d characters) is not carried as written' % (k, len(v)))
    for k, v in dl.items():
        if not re.search(re.escape(v).replace(r'\$\$', r'\(yypminor->yy\d+\)'), c): raise Mismatch('L12', 'the destructor text (%d characters) is not carried as written' % len(v))
def balanced(t):
    """do braces, quotes and comments of every code block close (so that the text means what was meant)"""
    return True

# ------------------------------------------------------------------ L06 names, symbols, states
def names_case(st, seed, i, want, wd, C):
    rng = random.Random('%s-%d' % (seed, i))
    if rng.random() < .4:
        # many states and items: long rules sharing prefixes and tails
        S = lemon_e2e.LSpec(); S.kind = 'chain'; nT = rng.randint(2, 6)
        S.tokens = [{'name': 'T%d' % k, 'prec': -1, 'assoc': None} for k in range(nT)]; S.nts = ['s', 'n0']; S.levels = []; S.rules = []; seen = set()
        n = rng.choice([3, 6, 12, 30, 60])
        base = [('t', rng.randrange(nT)) for _ in range(60)]
        for k in range(n):
            ln = rng.choice([1, 5, 9, 20, 33])
            a = rng.randint(0, 20); rhs = base[:rng.randint(0, min(ln, 30))]
            while len(rhs) < ln: rhs = rhs + [('t', rng.randrange(nT))]
            if rng.random() < .5: rhs = rhs[:-3] + base[a:a + 3]
            if tuple(rhs) in seen: continue
            seen.add(tuple(rhs)); S.rules.append({'lhs': 1, 'rhs': rhs, 'prec': None, 'code': True})
        S.rules.insert(0, {'lhs': 0, 'rhs': [('n', 1)], 'prec': None, 'code': True})
        if rng.random() < .3: S.rules.append({'lhs': 0, 'rhs': [('n', 1), ('n', 1)], 'prec': None, 'code': True})
        S.declare = list(range(nT)); S.nocode = False; S.expect = None
        opts = [x for x in ('-c', '-r') if rng.random() < .2]
        txt = lemon_e2e.text(S); C.files['g.y'] = txt; C.cmd = 'lemon %s g.y' % ' '.join(opts)
        R = lemon_e2e.run(st['exe'], txt, wd, opts)
        for k, nm in (('c', 'g.c'), ('out', 'g.out'), ('err', 'stderr')): C.files[nm] = R[k] or ''
        try: r = lemon_e2e.compare(S, R, opts, None)
        except Mismatch as e: raise Mismatch('L06', e.what)
        C.note = 'chains: %d states' % r['states']
        return
    n = rng.choice([5, 40, 130, 300, 1100, 2600])
    A = 'abcdefghijklmnopqrstuvwxyz'; D = A + A.upper() + '0123456789_'
    kind = rng.choice(['short', 'prefix', 'case', 'collide', 'mixed'])
    pre = ''.join(rng.choice(D) for _ in range(rng.choice([0, 5, 31, 63, 64, 100, 250])))
    seen = []; have = {'error', 'Error', 'ERROR'}
    def add(x):
        if len(seen) < n and x not in have and x[0].isalpha(): have.add(x); seen.append(x)
    def rnd(k): return ''.join(rng.choice(D) for _ in range(k))
    tries = 0
    while len(seen) < n and tries < 20 * n:
        tries += 1
        if kind == 'short': add(rng.choice(A + A.upper()) + rnd(rng.choice([0, 1, 2])))
        elif kind == 'prefix': add('t' + pre + rnd(rng.choice([0, 1, 2])) ); add('T' + pre + rnd(rng.choice([0, 1, 2])))
        elif kind == 'case': x = rng.choice(A) + rnd(3); add(x); add(x[0].upper() + x[1:]); add(x.upper()); add(x.lower())
        elif kind == 'collide':
            # h*13 + c: "Ab" and "BU" have the same value
            b = rng.choice(A + A.upper()) + rnd(4)
            add(b)
            for _ in range(4):
                k = rng.randrange(len(b) - 1); x, y = chr(ord(b[k]) + 1), chr(ord(b[k + 1]) - 13)
                if x in D and y in D and (k or x.isalpha()): b = b[:k] + x + y + b[k + 2:]; add(b)
        else: add(rng.choice(A + A.upper()) + rnd(rng.choice([0, 3, 10, 60])))
    toks = [x for x in seen if x[0].isupper()] or ['TT']
    nts = [x for x in seen if x[0].islower()] or ['nn']
    mt = []; mn = []
    def mention(x):
        q = mt if x[0].isupper() else mn
        if x not in q: q.append(x)
    o = []
    for k in range(0, len(toks), 7):
        if rng.random() < .7:
            o.append('%%token %s.' % ' '.join(toks[k:k + 7]))
            for x in toks[k:k + 7]: mention(x)
    rules = []
    for k, x in enumerate(nts):
        rhs = [rng.choice(toks) for _ in range(rng.randint(0, 3))] + ([nts[k + 1]] if k + 1 < len(nts) else [])
        rules.append((x, rhs)); mention(x)
        for y in rhs: mention(y)
        if rng.random() < .3 and rhs:
            r2 = (x, [rng.choice(toks)] + rhs)
            if r2 not in rules:
                rules.append(r2)
                for y in r2[1]: mention(y)
    o += ['%s ::= %s.' % (x, ' '.join(r)) for x, r in rules]
    txt = '\n'.join(o) + '\n'
    C.files['g.y'] = txt; C.cmd = 'lemon g.y'; C.note = '%d names, %s' % (len(seen), kind)
    rc, er, so, f = lemon(st['exe'], txt, wd, ['-c'] if rng.random() < .3 else [])
    C.files['stderr'] = er; C.files['g.out'] = f['g.out'] or ''
    if rc < 0 or f['g.c'] is None: raise Mismatch('L06', 'lemon fails: rc=%d %s' % (rc, er[-300:]))
    er2 = [l for l in er.split('\n') if l and 'conflict' not in l and 'can not be reduced' not in l]
    if er2: raise Mismatch('L06', 'lemon complains: %s' % '; '.join(er2)[-300:])
    code = [(m.group(1), int(m.group(2))) for m in re.finditer(r'^ *(\w+) *= *(\d+),?$', f['g.h'] or '', re.M)]
    got = [x for x, _ in code if not x.endswith('LEMON_LAST_TOKEN')]
    if got != mt or [v for x, v in code if not x.endswith('LEMON_LAST_TOKEN')] != list(range(1, len(mt) + 1)):
        d = next((k for k in range(min(len(got), len(mt))) if got[k] != mt[k]), min(len(got), len(mt)))
        raise Mismatch('L06', 'token %d is %r, expected %r (%d tokens in the header, %d in the grammar)' % (d + 1, got[d] if d < len(got) else None, mt[d] if d < len(mt) else None, len(got), len(mt)))
    T = lemon_e2e.tables(f['g.c'])
    e = ['$'] + mt
    if T['names'][:len(e)] != e: raise Mismatch('L06', 'terminals of the parser')
    rest = [x for x in T['names'][len(e):] if x != 'error']
    if rest != mn: raise Mismatch('L06', 'nonterminals of the parser: %d, expected %d' % (len(rest), len(mn)))
    rl = sorted(x.strip() for x in T['rules']); ex = sorted(('%s ::= %s' % (x, ' '.join(r))).strip() for x, r in rules)
    if rl != ex: raise Mismatch('L06', 'rules of the parser: %d, expected %d; first difference %r' % (len(rl), len(ex), next((p for p in zip(rl, ex) if p[0] != p[1]), None)))

# ------------------------------------------------------------------ L08 types at their limits
def bounds_case(st, seed, i, want, wd, C):
    rng = random.Random('%s-%d' % (seed, i))
    S = lemon_e2e.LSpec(); S.kind = 'bounds'
    around = lambda v: max(1, v + rng.randint(-6, 6))
    what = rng.choice(['symbols', 'symbols', 'rules', 'rules', 'offsets', 'long', 'mix', 'mix'])
    nT = {'symbols': around(rng.choice([127, 254])), 'rules': rng.choice([3, 10, 100]), 'offsets': around(rng.choice([64, 127, 200, 255])), 'long': 3, 'mix': around(rng.choice([30, 60, 127, 254]))}[what]
    nN = {'symbols': rng.randint(1, 4), 'rules': rng.randint(1, 10), 'offsets': rng.choice([1, 2, 60, around(127)]), 'long': 2, 'mix': rng.choice([1, 5, 30, 127])}[what]
    if want and i % 4 == 1 and what == 'symbols': nT = max(1, 254 - nN + rng.randint(-3, 4))
    S.tokens = [{'name': 'T%d' % k, 'prec': -1, 'assoc': None} for k in range(nT)]; S.nts = ['s'] + ['n%d' % k for k in range(nN)]; S.levels = []; S.rules = []; seen = set()
    def add(l, rhs):
        if (l, tuple(rhs)) in seen: return
        seen.add((l, tuple(rhs))); S.rules.append({'lhs': l, 'rhs': rhs, 'prec': None, 'code': True})
    add(0, [('n', 1)])
    for k in range(1, nN + 1):
        for _ in range(rng.choice([1, 1, 2])):
            rhs = [('t', rng.randrange(nT))] + ([('n', k + 1)] if k < nN else []) + ([('t', rng.randrange(nT))] if rng.random() < .5 else [])
            if rng.random() < .3: rhs = rhs[1:]
            add(k, rhs)
    goal = {'symbols': len(S.rules) + 3, 'rules': around(rng.choice([100, 120, 126, 127, 128, 170, 250])), 'offsets': len(S.rules) + 10, 'long': 4, 'mix': rng.choice([20, 60, around(125)])}[what]
    t = 0
    while len(S.rules) < goal and t < 3 * goal + 50:
        t += 1; l = rng.randint(1, nN)
        add(l, rng.choice([[('t', rng.randrange(nT))], [('t', rng.randrange(nT)), ('t', rng.randrange(nT))], [('n', rng.randint(1, nN)), ('t', rng.randrange(nT))]]))
    if what == 'long' or rng.random() < .1:
        add(1, [('t', rng.randrange(nT)) for _ in range(rng.choice([126, 127, 128, 129, 130, 255, 256, 300, 999, 1000]))])
    S.declare = list(range(nT)); S.nocode = False; S.expect = None
    opts = [x for x in ('-c', '-r') if rng.random() < .25]
    txt = lemon_e2e.text(S); C.files['g.y'] = txt; C.cmd = 'lemon %s g.y' % ' '.join(opts)
    R = lemon_e2e.run(st['exe'], txt, wd, opts)
    for k, nm in (('c', 'g.c'), ('out', 'g.out'), ('err', 'stderr')): C.files[nm] = R[k] or ''
    try: r = lemon_e2e.compare(S, R, opts, ['L08', 'L04'])
    except Mismatch as e: raise Mismatch('L08', e.what)
    C.note = '%s: %d tokens, %d rules, %d states' % (what, nT, len(S.rules), r['states'])
    T = lemon_e2e.tables(R['c'])
    p = subprocess.run(['gcc', '-fsyntax-only', '-Woverflow', '-DParseTOKENTYPE=int', '-x', 'c', '-include', 'stdlib.h', '-Dx()=(void)0', 'g.c'], cwd=wd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    o = p.stdout.decode('latin1')
    if 'Woverflow' in o: raise Mismatch('L08', 'a table entry does not fit its type: %s' % next(l for l in o.split('\n') if 'Woverflow' in l))
