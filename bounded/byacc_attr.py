"""byacc inherited attributes: x($1 + 2, $p) passes values down; generated parsers are run against a direct reading of the grammar"""
import random, re, subprocess
from byacc_e2e import Mismatch
from more_byacc import byacc

DRV = r'''
#include <stdlib.h>
static int toks[4096], ntok, pos;
static int yylex(void) { if (pos >= ntok) { pos++; return 0; } yylval%s = 1000 + pos;%s return toks[pos++]; }
static void yyerror(%sconst char *s) { printf("E %%d\n", pos); }
int main(void) {
    int n;
    while (scanf("%%d", &n) == 1) {
        int i; ntok = n; pos = 0;
        for (i = 0; i < n; i++) if (scanf("%%d", &toks[i]) != 1) return 9;
        printf("END %%d\n", yyparse());
    }
    return 0;
}
'''
def case(st, seed, i, want, wd, C):
    rng = random.Random('%s-%d' % (seed, i))
    typed = rng.random() < .6; pos = rng.random() < .4
    nn = rng.randint(2, 7); nt = rng.randint(2, 8)
    NM = ['p', 'q', 'arg_3', 'pq']
    ar = [0] + [rng.choice([0, 1, 1, 2, 2, 3, 4]) for _ in range(nn - 1)]
    TG = ['v', 'w'] if rng.random() < .5 else ['v']
    tg = [rng.choice(TG) for _ in range(nn)]; ft = [[rng.choice(TG) for _ in range(x)] for x in ar]
    def expr(n, k):
        """an expression over the n symbols to its left and the formals of nonterminal k: (text, function of values and arguments)"""
        def atom():
            x = rng.random()
            if x < .45 and n:
                j = rng.randint(1, n); t = '<%s>' % tags[j - 1] if typed and (kinds[j - 1] == 'm' or rng.random() < .2) else ''
                return '$%s%d' % (t, j), lambda v, a: v[j - 1]
            if x < .85 and ar[k]:
                j = rng.randrange(ar[k]); return '$%s%s' % ('<%s>' % ft[k][j] if typed and rng.random() < .2 else '', NM[j]), lambda v, a: a[j]
            c = rng.randint(0, 99); return str(c), lambda v, a: c
        x, f = atom()
        if rng.random() < .6: return x, f
        y, g = atom(); s = rng.choice(['+', '-'])
        return rng.choice(['%s %s %s', '(%s %s %s)']) % (x, s, y), (lambda v, a: f(v, a) + g(v, a)) if s == '+' else (lambda v, a: f(v, a) - g(v, a))
    rules = []; alts = {}
    for k in range(nn):
        alts[k] = []
        na = rng.choice([1, 1, 2, 3]); na = min(na, nt)
        lead = rng.sample(range(nt), na)
        for q in range(na):
            items = []; kinds = []; tags = []; txt = []; rid = len(rules)
            ln = rng.randint(1, 5)
            if na > 1 or k == 0 or k == nn - 1 or rng.random() < .4: items.append(('t', lead[q])); kinds.append('t'); tags.append('v'); txt.append('T%d' % lead[q])
            while len(items) < ln or not items:
                x = rng.random()
                if k < nn - 1 and x < .6:
                    c = rng.randint(k + 1, min(nn - 1, k + 3)); n = len(items)
                    if ar[c] and rng.random() < .35:
                        # arguments that already lie on top of the stack in order (or would, without the arguments in between)
                        top = [('$' + NM[z], (lambda j: lambda v, a: a[j])(z)) for z in range(ar[k])] + [('$%d' % (z + 1), (lambda j: lambda v, a: v[j])(z)) for z in range(n)]
                        m = rng.randint(0, min(ar[c], len(top))); es = top[len(top) - m:] if rng.random() < .8 else top[len(top) - m - 1:][:m]
                        if typed and 'm' in kinds: es = []
                        es += [expr(n, k) for _ in range(ar[c] - len(es))]
                    else: es = [expr(n, k) for _ in range(ar[c])]
                    items.append(('n', c, [f for _, f in es])); kinds.append('n'); tags.append(tg[c])
                    txt.append('N%d%s' % (c, '(' + rng.choice([', ', ',']).join(t for t, _ in es) + ')' if ar[c] else ''))
                elif x < .75 and kinds:
                    t, f = expr(len(items), k); u, g = expr(len(items), k)
                    items.append(('m', rid, len(items), f, g)); kinds.append('m'); tags.append(rng.choice(TG)); txt.append('{ printf("M %d.%d %%d\\n", %s); %s = %s; }' % (rid, len(items) - 1, t, '$<%s>$' % tags[-1] if typed else '$$', u))
                else:
                    z = rng.randrange(nt); items.append(('t', z)); kinds.append('t'); tags.append('v'); txt.append('T%d' % z)
            es = [expr(len(items), k) for _ in range(rng.randint(1, 4))]; t, f = expr(len(items), k)
            if pos:
                for j, y in enumerate(kinds):
                    if y == 't' and rng.random() < .6: es.append(('@%d.%s_line' % (j + 1, rng.choice(['first', 'last'])), (lambda j: lambda v, a: v[j] + 4000)(j)))
            txt.append('{ printf("R %d%s\\n", %s); $$ = %s; }' % (rid, ' %d' * len(es), ', '.join(x for x, _ in es), t))
            rules.append((k, txt)); alts[k].append((rid, items, [y for _, y in es], f))
    fm = lambda k: '(' + ', '.join('$%s%s' % ('<%s>' % ft[k][j] if typed else '', NM[j]) for j in range(ar[k])) + ')' if ar[k] else ''
    o = ['%%{\n#include <stdio.h>\nstatic int yylex(void); static void yyerror(%sconst char *);\n%%}' % ('void *, ' if pos else '')]
    if not typed: o[0] = o[0].replace('%}', '#define YYSTYPE int\n%}')
    if typed: o.append('%union { struct { int v, w; }; long pad; }')
    o.append('%%token %s%s' % ('<v> ' if typed else '', ' '.join('T%d' % z for z in range(nt))))
    if typed:
        for k in range(nn): o.append('%%type <%s> N%d%s' % (tg[k], k, '(' + ', '.join('<%s>' % x for x in ft[k]) + ')' if ar[k] else ''))
    opts = ['-d'] + (['-B'] if rng.random() < .2 else []) + (['-L'] if pos else [])
    txt = '\n'.join(o) + '\n%%\n' + '\n'.join('N%d%s : %s ;' % (k, fm(k), ' '.join(t)) for k, t in rules) + '\n%%\n' + DRV % ('.v' if typed else '', ' yylloc.first_line = yylloc.last_line = 5000 + pos;' if pos else '', 'void *l, ' if pos else '')
    C.files['g.y'] = txt; C.cmd = 'byacc %s g.y; gcc y.tab.c' % ' '.join(opts); C.note = '%d rules, parameters %s%s' % (len(rules), ar, ', typed' if typed else '')
    C.nontrivial = sum(ar) > 1
    rc, err, out = byacc(st['exe'], txt, wd, opts, ['y.tab.c', 'y.tab.h'])
    C.files['stderr'] = err; C.files['y.tab.c'] = out['y.tab.c'] or ''
    if rc < 0 or out['y.tab.c'] is None or re.search(r' e - |conflict', err.replace('0 conflicts', '')): raise Mismatch('C12', 'rejected: rc=%d %s' % (rc, err[-400:]))
    p = subprocess.run(['gcc', '-w', '-O0', '-o', 'p.exe', 'y.tab.c'], cwd=wd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode: raise Mismatch('C12', 'the generated parser does not compile: %s' % p.stdout.decode()[-400:])
    code = {int(a): int(b) for a, b in re.findall(r'#define T(\d+) (\d+)', out['y.tab.h'])}
    ins = []; exp = []
    wrap = lambda x: (x + 2**31) % 2**32 - 2**31
    for _ in range(16):
        s = []; ev = []
        def go(k, a):
            rid, items, es, f = rng.choice(alts[k]); v = []
            for it in items:
                if len(s) > 3000: raise OverflowError
                if it[0] == 't': v.append(1000 + len(s)); s.append(code[it[1]])
                elif it[0] == 'n': v.append(go(it[1], [wrap(g(v, a)) for g in it[2]]))
                else: ev.append('M %d.%d %d' % (it[1], it[2], wrap(it[3](v, a)))); v.append(wrap(it[4](v, a)))
            ev.append('R %d%s' % (rid, ''.join(' %d' % wrap(g(v, a)) for g in es)))
            return wrap(f(v, a))
        try: go(0, [])
        except OverflowError: continue
        ins.append(s); exp.append(ev + ['END 0'])
    res = subprocess.run(['./p.exe'], cwd=wd, input='\n'.join('%d %s' % (len(s), ' '.join(map(str, s))) for s in ins).encode(), stdout=subprocess.PIPE, timeout=20)
    got = res.stdout.decode().split('\n'); pos = 0
    for s, e in zip(ins, exp):
        g = got[pos:pos + len(e)]; pos += len(e)
        if g != e:
            C.files['input'] = '%d %s\n' % (len(s), ' '.join(map(str, s))); C.files['expected'] = '\n'.join(e); C.files['got'] = '\n'.join(g)
            d = next(j for j in range(len(e)) if j >= len(g) or g[j] != e[j])
            raise Mismatch('C12', 'input %s: step %d is %r, the grammar says %r' % (s[:40], d, g[d] if d < len(g) else None, e[d]))
