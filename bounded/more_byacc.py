"""Further bounded engines on byacc: names, literals, carried text, generated parsers, exports. Oracles are written from the documentation, not from the code."""
import os, re, random, subprocess
import byacc_e2e, gengram, lalrlib
from byacc_e2e import Mismatch

def byacc(exe, txt, wd, opts, files):
    for f in files:
        try: os.unlink(os.path.join(wd, f))
        except OSError: pass
    open(os.path.join(wd, 'g.y'), 'wb').write(txt if isinstance(txt, bytes) else txt.encode('latin1'))
    p = subprocess.run([exe] + list(opts) + ['g.y'], cwd=wd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60, env=dict(os.environ, TMPDIR=wd, ASAN_OPTIONS='detect_leaks=0'))
    out = {}
    for f in files:
        q = os.path.join(wd, f)
        out[f] = open(q, 'rb').read().decode('latin1') if os.path.exists(q) else None
    return p.returncode, p.stderr.decode('latin1'), out

def symtab(out):
    """[(value, name)] from the report; names may hold any character but a newline"""
    sec = out.split('symbol# value# symbol\n')[1]
    return [(int(m.group(2)), m.group(3)) for m in re.finditer(r'^ *(\d+) +(-?\d+)  (.*)$', sec, re.M)]

# ------------------------------------------------------------------ C09 names and numbers
def h(name):
    k = 0
    for c in name: k = (31 * k + ord(c)) & 1023
    return k
def names_case(st, seed, i, want, wd, C):
    rng = random.Random('%s-%d' % (seed, i))
    n = rng.choice([5, 20, 60, 200, 1500])
    kind = rng.choice(['short', 'prefix', 'collide', 'suffix', 'mixed', 'chars'])
    A = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_'; D = A + '0123456789.$'
    def rnd(l): return rng.choice(A) + ''.join(rng.choice(D) for _ in range(l))
    pre = rnd(rng.choice([3, 15, 16, 31, 32, 63, 64, 100, 200, 300])); seen = []
    have = set(['error'])
    def add(x):
        if x not in have and len(seen) < n and not re.match(r'\$\$?\d*$|.*\$(end|accept)', x): have.add(x); seen.append(x)
    while len(seen) < n:
        if kind == 'short': add(rnd(rng.choice([0, 1, 1, 2])))
        elif kind == 'prefix': add(pre + rnd(rng.choice([0, 1, 2, 3])))
        elif kind == 'suffix': add(rnd(rng.choice([1, 2, 3])) + pre)
        elif kind == 'collide':
            # "Ab" and "BC" style pairs have the same hash (31*a + b)
            base = rnd(3)
            for _ in range(4):
                a = rng.randrange(len(base) - 1)
                x, y = ord(base[a]) + 1, ord(base[a + 1]) - 31
                add(base)
                if chr(x) in (D if a else A) and chr(y) in D: base = base[:a] + chr(x) + chr(y) + base[a + 2:]
                else: base = rnd(3)
                add(base)
        elif kind == 'chars': add(rnd(2) + rng.choice('._$0')+ rnd(1)); add(seen[-1].swapcase() if seen else 'zz')
        else: add(rnd(rng.choice([0, 2, 5, 40])))
    nt = max(1, len(seen) // 2)
    toks, nts = seen[:nt], seen[nt:]
    nts = nts or ['s_']
    num = {}; used = set()
    lines = []
    for t in toks:
        if rng.random() < .2:
            c = rng.choice([rng.randint(257, 400), rng.randint(1000, 32000), rng.randint(1, 255)])
            if c not in used and c != 256: num[t] = c; used.add(c)
        lines.append('%%token %s%s' % (t, ' %s%d' % ('0' * rng.choice([0, 0, 1, 4]), num[t]) if t in num else ''))
    order = list(toks)
    rules = []; mention = []
    for k, x in enumerate(nts):
        rhs = [rng.choice(toks) if rng.random() < .5 else rng.choice(nts) for _ in range(rng.randint(1, 3))]
        if k + 1 < len(nts): rhs.append(nts[k + 1])
        rules.append((x, rhs))
    # one rule may mention a nonterminal before its definition: symbols appear in order of first mention
    for x, rhs in rules:
        for y in [x] + rhs:
            if y in set(nts) and y not in mention: mention.append(y)
    txt = '\n'.join(lines) + '\n%%\n' + ''.join('%s : %s ;\n' % (x, ' '.join(r)) for x, r in rules)
    C.files['g.y'] = txt; C.cmd = 'byacc -v -d g.y'; C.note = '%d names, %s' % (len(seen), kind)
    rc, err, o = byacc(st['exe'], txt, wd, ['-v', '-d'], ['y.tab.c', 'y.tab.h', 'y.output'])
    C.files['stderr'] = err
    if rc < 0 or o['y.output'] is None: raise Mismatch('C09', 'byacc fails on a grammar with %d names: %s' % (len(seen), err[-300:]))
    sy = symtab(o['y.output'])
    exp = ['$end', 'error'] + toks + ['$accept'] + mention
    got = [x for _, x in sy]
    if got != exp:
        d = next((k for k in range(min(len(got), len(exp))) if got[k] != exp[k]), min(len(got), len(exp)))
        raise Mismatch('C09', 'symbol %d is %r, expected %r (%d symbols listed, %d expected)' % (d, got[d] if d < len(got) else None, exp[d] if d < len(exp) else None, len(got), len(exp)))
    T = byacc_e2e.tables(o['y.tab.c'])
    if 'yyrule' in T:
        for k, (x, rhs) in enumerate(rules):
            if T['yyrule'][k + 1] != '%s : %s' % (x, ' '.join(rhs)): raise Mismatch('C09', 'rule %d reads %r' % (k + 1, T['yyrule'][k + 1]))
    val = {x: v for v, x in sy}
    for t in num:
        if val[t] != num[t]: raise Mismatch('C09', 'token %s declared as %d has code %d' % (t, num[t], val[t]))
    auto = [val[t] for t in toks if t not in num]
    if len(set(val[t] for t in toks)) != len(toks): raise Mismatch('C07', 'two tokens share a code')

# ------------------------------------------------------------------ C08 literals
ESC = {7: 'a', 8: 'b', 12: 'f', 10: 'n', 13: 'r', 9: 't', 11: 'v'}
def spell(rng, seq, i, q):
    """one spelling of character number i of seq inside quotes q"""
    c = seq[i]; nxt = seq[i + 1] if i + 1 < len(seq) else None
    opts = []
    ch = chr(c)
    # raw
    if 32 <= c < 127 and ch not in '\\' + q: opts += [ch, ch]
    if 128 <= c < 256: opts.append(ch)
    if c in ESC: opts += ['\\' + ESC[c]]
    if ch in '\\\'"' : opts.append('\\' + ch)
    if 32 < c < 127 and ch not in 'abfnrtvx01234567\n': opts.append('\\' + ch)
    return opts
def literal(rng, seq):
    q = rng.choice('\'"')
    o = q; prev_open = False     # the previous spelling would swallow a following digit
    for i, c in enumerate(seq):
        ops = [(x, None) for x in spell(rng, seq, i, q)]
        ops += [('\\%o' % c, 'o'), ('\\%02o' % c, 'o'), ('\\%03o' % c, None), ('\\x%x' % c, 'x'), ('\\x%02X' % c, 'x'), ('\\x00%x' % c, 'x')]
        x, op = rng.choice(ops)
        f = x[0]
        if prev_open == 'o' and f in '01234567': x, op = '\\%03o' % c, None
        if prev_open == 'x' and f in '0123456789abcdefABCDEF': x, op = '\\%03o' % c, None
        if op == 'o' and len(x) == 4: op = None
        if rng.random() < .02: o += '\\\n'; 
        o += x; prev_open = op
    return o + q
def decode_name(nm):
    q = nm[0]; assert nm[-1] == q and q in '\'"' and len(nm) > 2 or nm in ('""',), nm
    out = []; i = 1
    while i < len(nm) - 1:
        c = nm[i]
        if c == q: raise Mismatch('C08', 'printed name %r does not read back: bare quote' % nm)
        if c == '\\':
            i += 1; c = nm[i]
            inv = {v: k for k, v in ESC.items()}
            if c in '01234567':
                m = re.match(r'[0-7]{1,3}', nm[i:]); out.append(int(m.group(0), 8)); i += len(m.group(0)); continue
            if c == 'x':
                m = re.match(r'x([0-9a-fA-F]+)', nm[i:]); out.append(int(m.group(1), 16)); i += len(m.group(0)); continue
            out.append(inv.get(c, ord(c)))
        else: out.append(ord(c))
        i += 1
    return tuple(out)
def lits_case(st, seed, i, want, wd, C):
    rng = random.Random('%s-%d' % (seed, i))
    K = rng.randint(1, 12); seqs = []
    pool = rng.choice([list(range(1, 256)), [ord(x) for x in 'ab\\\'"01x\n\t'], [ord(x) for x in '\'"\\'], list(range(1, 32)) + [127, 255, 128, 200]])
    if rng.random() < .2: pool = pool + [0]
    # only sequences whose names stay on one line of the report are generated (a raw control character never appears in a name)
    while len(seqs) < K:
        s = tuple(rng.choice(pool) for _ in range(rng.choice([1, 1, 1, 2, 2, 3, 5])))
        if s not in seqs: seqs.append(s)
        elif rng.random() < .2: break
    rules = [[literal(rng, rng.choice(seqs)) for _ in range(0)] for _ in range(1)]
    used = [rng.choice(seqs) for _ in range(rng.randint(K, 3 * K))]
    for s in seqs:
        if s not in used: used.append(s)
    txt = '%%\n' + 's : ' + '\n  | '.join(literal(rng, s) + ' ' + literal(rng, rng.choice(seqs)) for s in used) + ' ;\n'
    C.files['g.y'] = txt.encode('latin1'); C.cmd = 'byacc -v g.y'; C.note = '%d character sequences in %d places' % (len(seqs), 2 * len(used))
    rc, err, o = byacc(st['exe'], txt, wd, ['-v'], ['y.tab.c', 'y.output'])
    C.files['stderr'] = err
    if o['y.output'] is None: raise Mismatch('C08', 'literals rejected: %s' % err[-300:])
    sy = [(v, x) for v, x in symtab(o['y.output']) if x[0] in '\'"']
    got = {}
    for v, x in sy:
        d = decode_name(x)
        if d in got: raise Mismatch('C08', 'the sequence %s is two tokens: %s and %s' % (list(d), got[d][1], x))
        got[d] = (v, x)
    for d in got:
        if d not in seqs: raise Mismatch('C08', 'token %s is no literal of the grammar' % got[d][1])
    for s in seqs:
        if s not in got: raise Mismatch('C08', 'no token for the sequence %s' % list(s))
        if len(s) == 1 and got[s][0] != s[0]: raise Mismatch('C08', 'token %s has code %d, expected %d' % (got[s][1], got[s][0], s[0]))
        if len(s) > 1 and got[s][0] < 257: raise Mismatch('C08', 'token %s has code %d' % (got[s][1], got[s][0]))
    # which token stands where
    T = byacc_e2e.tables(o['y.tab.c'])

# ------------------------------------------------------------------ C10 text
def text_case(st, seed, i, want, wd, C):
    rng = random.Random('%s-%d' % (seed, i))
    sizes = [1, 7, 8, 15, 16, 23, 24, 31, 32, 33, 47, 48, 63, 64, 65, 80, 83, 84, 85, 99, 100, 101, 127, 128, 129, 167, 168, 169, 255, 256, 257, 335, 336, 337, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 4097, 9000]
    def size(): return max(1, rng.choice(sizes) + rng.choice([-2, -1, 0, 0, 0, 1, 2]))
    AL = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_ ()+-*;,.<>[]!&|^~?:'
    def body(n, nl=True):
        o = []
        k = 0
        while k < n:
            x = rng.random()
            if nl and x < .01: o.append('\n'); k += 1
            elif x < .02:
                w = rng.randint(0, min(60, n)); s = '"' + ''.join(rng.choice(AL.replace('"', '') + '{}$%/') for _ in range(w)) + '"'; o.append(s); k += len(s)
            elif x < .025:
                w = rng.randint(0, min(60, n)); s = '/*' + ''.join(rng.choice(AL.replace('*', '') + '{}$%"\'') for _ in range(w)) + '*/'; o.append(s); k += len(s)
            else: o.append(rng.choice(AL)); k += 1
        return ''.join(o)
    parts = {}
    decl = []
    if rng.random() < .6:
        p = body(size()); parts['prologue'] = p; decl.append('%{\n' + p + '\n%}')
    if rng.random() < .4:
        u = body(size()).replace('[', '(').replace(']', ')'); parts['union'] = u; decl.append('%union { ' + u + ' }')
    tag = 'tag' + ''.join(rng.choice('abcxyz_019') for _ in range(size() % 600)); tags = rng.random() < .5
    tok = 'TOK' + ''.join(rng.choice('ABCXYZ_019') for _ in range(size() % 3000))
    decl.append('%%token %s%s' % ('<%s> ' % tag if tags else '', tok))
    if tags: decl.append('%%type <%s> s' % tag)
    lit = ''.join(rng.choice('abcdefghijklmnop') for _ in range(max(2, size() % 2500)))
    a = body(size()).replace('$', 'S').replace('@', 'A'); b = body(size()).replace('@', 'A').replace('$', 'S')
    parts['action'] = a; parts['embedded action'] = b
    use = ' $$ = $1;' if tags else ''
    trail = body(size())
    rules = 's : %s { %s%s } | "%s" %s { %s } %s ;' % (tok, a, use, lit, tok, b, tok)
    # the other places text can stand
    plain = lambda: re.sub('[^A-Za-z0-9_ ();=+.,]', 'x', body(size(), False)).strip() or 'x'
    texts = []
    for _ in range(rng.choice([0, 0, 1, 2, 5])):
        kw = rng.choice(['top', 'requires', 'provides']); t = '\n'.join(plain() for _ in range(rng.choice([1, 1, 2, 5])))
        texts.append(('%code ' + kw, t)); decl.append('%%code %s {%s%s%s}' % (kw, rng.choice(['', ' ', '\n']), t, rng.choice([' ', '\n'])))
    if rng.random() < .15: t = plain(); texts.append(('initial action', '{ ' + t + ' }')); decl.append('%initial-action { ' + t + ' }')
    if tags and rng.random() < .3:
        t, u = plain(), plain(); decl.append('%%destructor { %s $$ %s } %s' % (t, u, rng.choice(['s', '<%s>' % tag, tok]))); texts.append(('destructor', '{ %s (*val).%s %s }' % (t, tag, u)))
    if rng.random() < .2:
        t, u = (x + ''.join(rng.choice('abcxyz_019') for _ in range(size() % 3000)) for x in 'pt'); decl.append('%%parse-param { %s %s }' % (u, t)); texts.append(('parameter', u + ' ' + t))
    if rng.random() < .1: t = plain(); texts.append(('ident', '#ident "' + t + '"')); decl.append('%ident "' + t + '"')
    rng.shuffle(decl)
    # a family of tags, many the beginning of others
    fam = []; tagd = []
    if rng.random() < .4:
        st0 = 'tg' + ''.join(rng.choice('ab_') for _ in range(rng.choice([0, 1, 5, 40])))
        for _ in range(rng.choice([2, 4, 20, 33, 70])):
            t = st0 + ''.join(rng.choice('ab') for _ in range(rng.randint(0, 7)))
            if t not in fam: fam.append(t)
        rng.shuffle(fam)
        for k in range(rng.randint(1, 30)):
            x, y, z = rng.choice(fam), rng.choice(fam), rng.choice(fam)
            decl.append('%%token <%s> FA%d' % (x, k)); decl.append('%%type <%s> fn%d' % (y, k))
            if rng.random() < .4: decl.append('%%%s <%s> %s%d' % (('token', x, 'FA', k) if rng.random() < .5 else ('type', y, 'fn', k)))
            tagd.append(('FAM%d;' % k, y, x, z)); rules += '\nfn%d : FA%d fn%d { FAM%d; $$ = $1 + $<%s>2 + $<%s>0; } | FA%d ;' % (k, k, k, k, z, y, k)
        rules += '\ns : ' + ' | '.join("'%d' fn%d { }" % (k, k) if k < 10 else 'error fn%d { }' % k for k in range(len(tagd))) + ' ;'
    gap = rng.choice(['', ' ' * size(), '\t' * 3, '/* ' + 'c' * size() + ' */', '// ' + 'd' * size() + '\n'])
    txt = '\n'.join(decl) + '\n%%\n' + gap + rules + '\n%%\n' + trail + '\n'
    if re.search(r'%%|%\}', ''.join(parts.values())): return
    C.files['g.y'] = txt; C.cmd = 'byacc -v -d -t g.y'; C.note = 'text of %s characters' % '/'.join(str(len(v)) for v in parts.values())
    rc, err, o = byacc(st['exe'], txt, wd, ['-v', '-d', '-l'], ['y.tab.c', 'y.tab.h', 'y.output'])
    C.files['stderr'] = err
    c = o['y.tab.c']
    if rc < 0 or c is None or o['y.output'] is None or 'error' in err: raise Mismatch('C10', 'rejected: rc=%d %s' % (rc, err[-400:]))
    for k in ('prologue', 'action', 'embedded action'):
        if k in parts and parts[k] not in c: raise Mismatch('C10', 'the %s (%d characters) is not in the output unchanged' % (k, len(parts[k])))
    if 'union' in parts and parts['union'] not in c: raise Mismatch('C10', 'the union text (%d characters) is not in the output unchanged' % len(parts['union']))
    if trail not in c: raise Mismatch('C10', 'the program section (%d characters) is not in the output unchanged' % len(trail))
    if tags and '{ %s yyval.%s = yystack.l_mark[0].%s; }' % (a, tag, tag) not in c: raise Mismatch('C10', 'action with tag of %d characters' % len(tag))
    for k, t in texts:
        if t not in c and t not in o['y.tab.h']: raise Mismatch('C10', 'the %s text (%d characters) is not in the output unchanged' % (k, len(t)))
    for m, y, x, z in tagd:
        w = '{ %s yyval.%s = yystack.l_mark[-1].%s + yystack.l_mark[0].%s + yystack.l_mark[-2].%s; }' % (m, y, x, z, y)
        if w not in c: raise Mismatch('C10', 'the tags <%s>, <%s>, <%s> are not carried to the action: expected %s' % (y, x, z, w))
    if 'redeclared' in err: raise Mismatch('C10', 'a symbol declared twice with the same tag is reported as redeclared: %s' % err[-300:])
    names = [x for _, x in symtab(o['y.output'])]
    for x in (tok, '"%s"' % lit):
        if x not in names: raise Mismatch('C10', 'name of %d characters is not carried unchanged' % len(x))
    if '#define %s 257' % tok not in o['y.tab.h']: raise Mismatch('C10', 'token name of %d characters missing in the header' % len(tok))

# ------------------------------------------------------------------ C12 running parsers
DRIVER = r'''
#include <stdio.h>
#include <stdlib.h>
static int toks[4096], ntok, pos, cnt;
static int yylex(void) { if (pos >= ntok) { pos++; return 0; } yylval%s = 1000 + pos;%s return toks[pos++]; }
static void yyerror(%sconst char *s) { printf("E %%d\n", pos); }
int main(int argc, char **argv) {
    int n;
    while (scanf("%%d", &n) == 1) {
        int i; ntok = n; pos = 0; cnt = 0;
        for (i = 0; i < n; i++) if (scanf("%%d", &toks[i]) != 1) return 9;
        printf("END %%d\n", yyparse());
    }
    return 0;
}
'''
def run_case(st, seed, i, want, wd, C):
    rng = random.Random('%s-%d' % (seed, i))
    kind = rng.choice(['small', 'medium', 'expr', 'prec', 'nullable', 'error', 'midrule', 'midrule', 'codes'])
    S = gengram.gen(rng, kind)
    typed = rng.random() < .4
    acts = {}; mids = []
    lines = []
    leveled = {k for _, ts in S.levels for k in ts}
    tg = '<v> ' if typed else ''
    pos = rng.random() < .3
    head = ['%%{\n#include <stdio.h>\nstatic int yylex(void); static void yyerror(%sconst char *); static int cnt;\n%%}' % ('void *, ' if pos else '')]
    if typed: head.append('%union { long pad; int v; char *q; int w; }'); head.append('%%type <v> %s' % ' '.join(S.nts))
    txt = gengram.yacc_text(S)
    decl = txt.split('%%\n')[0]
    if typed:
        decl = re.sub(r'^(%token|%left|%right|%nonassoc) ', r'\1 <v> ', decl, flags=re.M)
        lits = [gengram.tname(t) for k, t in enumerate(S.tokens) if t['lit'] and k not in leveled and t['code'] is None]
        if lits: decl += '%%token <v> %s\n' % ' '.join(lits)
        decl += '%type <v> error\n' if False else ''
    rules = []
    ends = [rng.random() < .85 for _ in S.rules]
    V = '.v' if typed else ''
    for k, r in enumerate(S.rules):
        rhs = []; refs = []
        items = [x for x in r['rhs']]
        while items and items[-1] == ('m',): items.pop()
        r['rhs'] = items
        for n, s in enumerate(items, 1):
            if s == ('m',):
                ar = [j for j in range(1, n)]; rng.shuffle(ar); ar = ar[:4]
                def ref(j):
                    if typed and (items[j - 1][0] in 'me' or rng.random() < .3): return '$<v>%d' % j
                    return '$%d' % j
                lr = [rng.randint(1, n - 1) for _ in range(rng.randint(1, 2))] if pos and n > 1 else []
                rhs.append('{ printf("M %d.%d%s\\n"%s); %s = ++cnt; }' % (k, n, ' %d' * len(ar) + ' @ %d %d' * len(lr), ''.join(', ' + ref(j) for j in ar) + ''.join(', @%d.first_line, @%d.last_line' % (j, j) for j in lr), '$<v>$' if typed else '$$'))
                mids.append((k, n, (ar, lr)))
            else: rhs.append(gengram.tname(S.tokens[s[1]]) if s[0] == 't' else S.nts[s[1]] if s[0] == 'n' else 'error')
        if r['prec'] is not None: rhs.append('%prec ' + gengram.tname(S.tokens[r['prec']]))
        n = len(items)
        if ends[k]:
            ar = list(range(1, n + 1)); rng.shuffle(ar); ar = ar[:6]
            def ref(j):
                if typed and (items[j - 1][0] in 'me' or rng.random() < .3): return '$<v>%d' % j
                return '$%d' % j
            z = rng.choice([0, 0, -1, -2]) if rng.random() < .35 else None
            lr = [rng.choice(['$', 0, -1] + ar) for _ in range(rng.randint(1, 3))] if pos else []
            rhs.append('{ printf("R %d%s%s%s\\n"%s%s%s); %s = ++cnt; }' % (k, ' %d' * len(ar), ' below %d' if z is not None else '', ' @ %d %d' * len(lr), ''.join(', ' + ref(j) for j in ar), (', $<v>%d' % z if typed else ', $%d' % z) if z is not None else '', ''.join(', @%s.first_line, @%s.last_line' % (j, j) for j in lr), '$<v>$' if typed and rng.random() < .5 else '$$'))
            acts[k] = (ar, z, lr)
        rules.append('%s : %s ;' % (S.nts[r['lhs']], ' '.join(rhs)))
    opts = ['-d'] + (['-L'] if pos and rng.random() < .7 else [])
    if pos and '-L' not in opts: head.append('%locations')
    if rng.random() < .15: opts.append('-t')
    if rng.random() < .15: opts += ['-p', 'my_']
    if rng.random() < .15: opts.append('-B')
    txt = '\n'.join(head) + '\n' + decl + '%%\n' + '\n'.join(rules) + '\n%%\n' + DRIVER % (V, ' yylloc.first_line = 1000 + pos; yylloc.last_line = 1000 + pos;' if pos else '', 'void *l, ' if pos else '')
    C.files['g.y'] = txt; C.cmd = 'byacc %s g.y; gcc y.tab.c' % ' '.join(opts); C.note = '%s grammar, %d rules%s' % (kind, len(S.rules), ', typed' if typed else '')
    rc, err, o = byacc(st['exe'], txt, wd, opts, ['y.tab.c', 'y.tab.h'])
    C.files['stderr'] = err
    if rc < 0 or o['y.tab.c'] is None or 'error' in err and ' e - ' in err or re.search(r'^\S*: e - ', err, re.M): raise Mismatch('C12', 'byacc rejects the grammar: rc=%d %s' % (rc, err[-400:]))
    C.files['y.tab.c'] = o['y.tab.c']
    T = byacc_e2e.tables(re.sub(r'(static const YYINT )my_', r'\1yy', o['y.tab.c']))
    if any(T.get('yycindex', ())): C.nontrivial = False; return      # alternatives are tried: the tables are decoded by byacc-back
    p = subprocess.run(['gcc', '-w', '-O0', '-o', 'p.exe', 'y.tab.c'], cwd=wd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode: raise Mismatch('C12', 'the generated parser does not compile: %s' % p.stdout.decode()[-400:])
    g, rprec, sprec = gengram.model(S)
    code = byacc_e2e.code_of(S, {'h': o['y.tab.h']})
    tl = [code[2 + k] for k in range(len(S.tokens)) if 2 + k in code]
    # map of table rule numbers to our rules: mid-rule rules first
    num = 1; what = {}
    mi = 0
    for k, r in enumerate(S.rules):
        for n, s in enumerate(r['rhs'], 1):
            if s == ('m',): what[num] = ('M', mids[mi]); mi += 1; num += 1
        what[num] = ('R', k); num += 1
    # sentences: half random tokens, half derived from the grammar, some mutated
    by = {}
    for l, rh in g.rules[1:]: by.setdefault(l, []).append(rh)
    def derive(x, d):
        if not g.isn(x): return [code[x]] if x >= 2 and x in code else None
        alts = by.get(x)
        if not alts or d > 12: return None
        al = sorted(alts, key=len)[:1] if d > 7 else [rng.choice(alts)]
        out = []
        for y in al[0]:
            q = derive(y, d + 1)
            if q is None: return None
            out += q
        return out
    ins = []
    while len(ins) < 16:
        s = None
        if rng.random() < .7: s = derive(g.start, 0)
        if s is None: s = [rng.choice(tl) for _ in range(rng.randint(0, 8))] if tl else []
        elif rng.random() < .4 and tl:
            for _ in range(rng.randint(1, 2)):
                j = rng.randint(0, len(s)); s = s[:j] + ([rng.choice(tl)] if rng.random() < .6 else []) + s[j + rng.randint(0, 1):]
        if rng.random() < .05: s = s + [rng.randint(1, 400)]
        if len(s) < 200: ins.append(s)
    sims = [(s, simulate(T, s, what, acts, ends)) for s in ins]
    sims = [(s, e) for s, (ok, e) in sims if ok]           # runs that do not end (cyclic grammars) are left out
    res = subprocess.run(['./p.exe'], cwd=wd, input='\n'.join('%d %s' % (len(s), ' '.join(map(str, s))) for s, _ in sims).encode(), stdout=subprocess.PIPE, timeout=20)
    lines = res.stdout.decode().split('\n')
    pos = 0
    for s, exp in sims:
        got = []
        while pos < len(lines) and not lines[pos].startswith('END'): got.append(lines[pos]); pos += 1
        got.append(lines[pos] if pos < len(lines) else 'killed'); pos += 1
        if not same(got, exp):
            C.files['input'] = '%d %s\n' % (len(s), ' '.join(map(str, s))); C.files['expected'] = '\n'.join(exp); C.files['got'] = '\n'.join(got)
            d = next((k for k in range(min(len(got), len(exp))) if not same([got[k]], [exp[k]])), min(len(got), len(exp)))
            raise Mismatch('C12', 'input %s: step %d is %r, the automaton gives %r' % (s, d, got[d] if d < len(got) else None, exp[d] if d < len(exp) else None))
def same(got, exp):
    """? in the expectation: a value the language leaves undefined"""
    if len(got) != len(exp): return False
    for a, b in zip(got, exp):
        if a == b: continue
        x, y = a.split(' '), b.split(' ')
        if len(x) != len(y) or any(u != v and v != '?' for u, v in zip(x, y)): return False
    return True
def simulate(T, s, what, acts, ends):
    out = []; st = [0]; vals = [None]; locs = ['?']; inp = [(c, 1000 + k) for k, c in enumerate(s)]; pos = 0; la = None; flag = 0; cnt = 0
    mx = len(T['yycheck'])
    def look(base, q, c):
        n = T[base][q]
        if n:
            n += c
            if 0 <= n <= T['YYTABLESIZE'] and n < mx and T['yycheck'][n] == c: return T['yytable'][n]
        return None
    for step in range(4000):
        q = st[-1]; r = T['yydefred'][q]
        if not r:
            if la is None:
                la = inp[pos] if pos < len(inp) else (0, None); pos += 1
                if la[0] < 0: la = (0, None)
            n = look('yysindex', q, la[0])
            if n is not None:
                st.append(n); vals.append(la[1]); locs.append((la[1], la[1])); la = None
                if flag > 0: flag -= 1
                continue
            r = look('yyrindex', q, la[0])
        if not r:
            if flag == 0: out.append('E %d' % pos)
            if flag < 3:
                flag = 3
                while True:
                    n = look('yysindex', st[-1], 256)
                    if n is not None: st.append(n); vals.append('?'); locs.append('?'); break
                    if len(st) <= 1: out.append('END 1'); return True, out
                    st.pop(); vals.pop(); locs.pop()
            else:
                if la[0] == 0: out.append('END 1'); return True, out
                la = None
            continue
        n = T['yylen'][r]; v = vals[len(vals) - n:] if n else []
        w, k = what.get(r, (None, None))
        at = lambda l, k: l[len(l) - n - 1 + k] if len(l) - n - 1 + k > 0 else '?'
        nv = v[0] if v else '?'
        ll = locs[len(locs) - n:] if n else []; bl = locs[len(locs) - n - 1]
        u = lambda l, j: '?' if l == '?' else l[j]
        nl = (u(ll[0], 0), u(ll[-1], 1)) if n else (u(bl, 1), u(bl, 1))
        show = lambda l: ' @ %s %s' % (u(l, 0), u(l, 1))
        if w == 'M':
            kk, nn, (ar, lr) = k; cnt += 1
            fl = locs[len(locs) - (nn - 1):] if nn > 1 else []
            full = vals[len(vals) - (nn - 1):] if nn > 1 else []
            out.append('M %d.%d%s' % (kk, nn, ''.join(' %s' % full[j - 1] for j in ar) + ''.join(show(fl[j - 1]) for j in lr))); nv = cnt
        elif w == 'R' and ends[k]:
            ar, z, lr = acts[k]; cnt += 1
            out.append('R %d%s%s' % (k, ''.join(' %s' % v[j - 1] for j in ar), ' below %s' % at(vals, z) if z is not None else '') + ''.join(show(nl if j == '$' else at(locs, j) if j < 1 else ll[j - 1]) for j in lr)); nv = cnt
        if n: del st[len(st) - n:], vals[len(vals) - n:], locs[len(locs) - n:]
        q = st[-1]; nt = T['yylhs'][r]
        if q == 0 and nt == 0 and False: pass
        gq = None
        b = T['yygindex'][nt]
        if b:
            j = b + q
            if 0 <= j <= T['YYTABLESIZE'] and j < mx and T['yycheck'][j] == q: gq = T['yytable'][j]
        if gq is None: gq = T['yydgoto'][nt]
        if q == 0 and gq == T['YYFINAL'] and what.get(r) is not None and isfinal(T, nt):
            st.append(gq); vals.append(nv); locs.append(nl)
            if la is None:
                la = inp[pos] if pos < len(inp) else (0, None); pos += 1
            if la[0] == 0: out.append('END 0'); return True, out
            continue
        st.append(gq); vals.append(nv); locs.append(nl)
    return False, out
def isfinal(T, nt): return nt == 0

# ------------------------------------------------------------------ C13 exports
def strip(t): return re.sub(r'/\*.*?\*/', '', t)
def toks_of(l): return re.findall(r"<'(?:[^'\\]|\\.)+'>|'(?:[^'\\]|\\.)+'|\"(?:[^\"\\]|\\.)+\"|[^\s']+", l)
def export_case(st, seed, i, want, wd, C):
    rng = random.Random('%s-%d' % (seed, i))
    S = gengram.gen(rng, rng.choice(['small', 'medium', 'expr', 'prec', 'nullable', 'error', 'midrule']))
    for r in S.rules:
        while r['rhs'] and r['rhs'][-1] == ('m',): r['rhs'].pop()
    if rng.random() < .2:      # literals that are written with an escape
        esc = [r"\'", r'\\\\'[:2], r'\a', r'\b', r'\n', r'\t', r'\001', r'\177', r'\200', r'\377', '"']; rng.shuffle(esc)
        for t in S.tokens:
            if t['lit'] and esc and rng.random() < .6: t['name'] = esc.pop()
    if rng.random() < .2:      # names of any length, alike at the beginning
        x = 'x' * rng.choice([1, 20, 55, 58, 59, 60, 61, 62, 63, 64, 65, 130, 400]) + rng.choice(['', '_'])
        S.nts = [x + n for n in S.nts]
        for t in S.tokens:
            if not t['lit']: t['name'] = x.upper() + t['name']
    which = rng.choice(['-n', '-n', '-e', '-E', '-S', '-S', '-N', '-c', '-C'])
    txt = gengram.yacc_text(S); C.files['g.y'] = txt; C.cmd = 'byacc %s g.y' % which; C.note = '%s grammar, %d rules' % (S.kind, len(S.rules))
    fn = {'-n': 'y.yn', '-N': 'y.yn', '-e': 'y.ebnf', '-E': 'y.yl', '-S': 'y.sql', '-c': 'y.ycbrt', '-C': 'y.ypar'}[which]
    rc, err, o = byacc(st['exe'], txt, wd, [which], [fn, 'y.tab.c'])
    t = o[fn]
    if t is None: raise Mismatch('C13', 'no export with %s: %s' % (which, err[-200:]))
    C.files[fn] = t
    def nm(s): return gengram.tname(S.tokens[s[1]]) if s[0] == 't' else S.nts[s[1]] if s[0] == 'n' else 'error'
    exp = [(S.nts[r['lhs']], [nm(s) for s in r['rhs'] if s != ('m',)], gengram.tname(S.tokens[r['prec']]) if r['prec'] is not None else None) for r in S.rules]
    got = []; start = None; levels = []
    if which in ('-n', '-N'):
        t = strip(t)
        unq = (lambda x: x[1:-1] if x[0] == '<' and x[-1] == '>' and len(x) > 2 else x) if which == '-N' else (lambda x: x)
        hd, body = t.split('\n%%\n', 1)
        start = re.search(r'^%start (\S+)$', hd, re.M).group(1)
        for m in re.finditer(r'^%(left|right|nonassoc)\s+(.*)$', hd, re.M): levels.append((m.group(1), [unq(x) for x in toks_of(m.group(2))]))
        lhs = None
        body = toks_of(body)
        j = 0; cur = None
        while j < len(body):
            x = body[j]
            if j + 1 < len(body) and body[j + 1] == ':' and (lhs is None or x != '%prec'):
                lhs = x; cur = [lhs, [], None]; got.append(cur); j += 2; continue
            if x == '|': cur = [lhs, [], None]; got.append(cur)
            elif x == ';': pass
            elif x == '%prec': cur[2] = unq(body[j + 1]); j += 1
            else: cur[1].append(unq(x))
            j += 1
        got = [tuple(x) for x in got]
        if got and got[0][0] == 'x_start_rule_': got = got[1:]
    elif which == '-e':
        lhs = None
        for l in strip(t).split('\n'):
            m = re.match(r'(\S+) ::=$', l)
            if m: lhs = m.group(1); continue
            if l.startswith('\t'):
                b = toks_of(l)
                if l.startswith('\t|'): b = b[1:]
                got.append((lhs, b, None))
        exp = [(a, b, None) for a, b, c in exp]
    elif which in ('-c', '-C'):
        t = strip(re.sub(r'//%prec .*', '', t)); body = t
        if which == '-c':
            hd, body = t.split('\n%grammar%\n', 1)
            nd = re.findall(r'^%token (\S+)$', hd, re.M)
            if len(set(nd)) != len(nd): raise Mismatch('C13', 'token names exported twice: %s' % nd)
            m = re.match(r'((?:\s*%nt.*\n)*)', body); nts = ' '.join(re.findall(r'%nt(.*)', m.group(1))).split(); body = body[m.end():]
            if set(nts) != {e[0] for e in exp}: raise Mismatch('C13', 'nonterminals exported as %s' % nts)
            exp = [(a, b, None) for a, b, c in exp]
        else:
            for m in re.finditer(r'^#(left|right|nonassoc)\s+(.*) ;$', t, re.M): levels.append((m.group(1), m.group(2).split()))
            body = t[[m.end() for m in re.finditer(r'^#.* ;\n', t, re.M)][-1]:]
            q = lambda x: x if x[0] == "'" or x in S.nts else '"%s"' % x
            exp = [(a, [q(x) for x in b], q(c) if c else c) for a, b, c in exp]
            e = [(a, sorted(q(gengram.tname(S.tokens[x])) for x in ts)) for a, ts in S.levels]
            if [(a, sorted(b)) for a, b in levels] != e: raise Mismatch('C13', 'precedence levels exported as %s, they are %s' % (levels, e))
        cur = None; lhs = None
        for l in body.split('\n'):
            m = re.match(r'(\S+) :$', l)
            if m:
                lhs = m.group(1)
                if lhs[-1] == '$':
                    if start is not None: raise Mismatch('C13', 'two start symbols')
                    lhs = start = lhs[:-1]
                continue
            if l.startswith('\t') and l.strip() != ';':
                b = l.split()
                if b and b[0] == '|': b = b[1:]
                c = None
                if '#precedence' in b: c = b[b.index('#precedence') + 1]; b = b[:b.index('#precedence')]
                got.append((lhs, b, c))
        if which == '-C' and start is None: raise Mismatch('C13', 'no start symbol')
    elif which == '-E':
        t = strip(t)
        # token names are rewritten for lemon: the map must be one to one and used throughout
        mp = {}
        m = re.search(r'^%start_symbol (\S+)$', t, re.M); start = m.group(1) if m else None
        for m in re.finditer(r'^%(left|right|nonassoc)\s+(.*?) \.$', t, re.M): levels.append((m.group(1), m.group(2).split()))
        for m in re.finditer(r'^(\w+) ::=(.*?) ?\.(?: \[(\S+)\].*)?$', t, re.M): got.append((m.group(1), m.group(2).split(), m.group(3)))
        if len(got) != len(exp): raise Mismatch('C13', '%d rules exported, the grammar has %d' % (len(got), len(exp)))
        def chk(a, b):
            if a is None or b is None:
                if a is not b: raise Mismatch('C13', 'precedence symbol %s exported as %s' % (a, b))
                return
            if a in S.nts:
                if a != b: raise Mismatch('C13', 'symbol %s exported as %s' % (a, b))
            elif mp.setdefault(a, b) != b: raise Mismatch('C13', 'symbol %s exported as %s and as %s' % (a, mp[a], b))
        for k, (e, q) in enumerate(zip(exp, got)):
            if e[0] != q[0] or len(e[1]) != len(q[1]): raise Mismatch('C13', 'rule %d exported as %s ::= %s, it is %s : %s' % (k + 1, q[0], ' '.join(q[1]), e[0], ' '.join(e[1])))
            for a, b in zip(e[1], q[1]): chk(a, b)
            chk(e[2], q[2])
        for (a, ts), (b, us) in zip(S.levels, levels):
            if a != b or len(ts) != len(us): raise Mismatch('C13', 'precedence level %s %s exported as %s %s' % (a, ts, b, us))
            if len(us) == 1: chk(gengram.tname(S.tokens[ts[0]]), us[0])
            elif all(gengram.tname(S.tokens[x]) in mp for x in ts) and {mp[gengram.tname(S.tokens[x])] for x in ts} != set(us): raise Mismatch('C13', 'precedence level %s' % us)
        if len(levels) != len(S.levels): raise Mismatch('C13', '%d precedence levels exported, the grammar has %d' % (len(levels), len(S.levels)))
        if len(set(mp.values())) != len(mp) or set(mp.values()) & set(S.nts): raise Mismatch('C13', 'two symbols are exported under one name: %s' % mp)
        if start != S.nts[S.start]: raise Mismatch('C13', 'start symbol exported as %s' % start)
        return
    else:
        def rows(tab):
            out = []
            for m in re.finditer(r'INSERT INTO %s\([^)]*\) VALUES\n(.*?) ;\n\n?' % tab, t, re.S):
                out += re.findall(r"\((\d+),('(?:[^']|'')*'|\w+)(?:,('(?:[^']|'')*'|\w+))?(?:,(\w+))?\)", m.group(1))
            return out
        sym = {}
        for a, b, c, d in rows('symbol'):
            n_ = b[1:-1].replace("''", "'")
            if a in sym or n_ in sym.values(): raise Mismatch('C13', 'symbol %s listed twice' % n_)
            sym[a] = n_
            if (c == 'TRUE') != (n_ not in S.nts): raise Mismatch('C13', 'symbol %s has the wrong kind' % n_)
        rr = {}
        for a, b, c, d in rows('rulerhs'): rr.setdefault(a, {})[int(b)] = sym.get(c)
        for a, b, c, d in rows('rule'):
            f = rr.get(a, {}); seq = [f[x] for x in sorted(f)]
            if seq == [None]: seq = []
            got.append((sym.get(b), seq, sym.get(c)))
        pr = {sym[a]: (int(b), c[1]) for a, b, c, d in rows('precedence')}
        for l, (a, ts) in enumerate(S.levels, 1):
            for x in ts:
                n_ = gengram.tname(S.tokens[x])
                if pr.get(n_) != (l, {'left': 'L', 'right': 'R', 'nonassoc': 'N'}[a]): raise Mismatch('C13', 'precedence of %s exported as %s' % (n_, pr.get(n_)))
        exp = [(a, b, c if c is not None and any(gengram.tname(S.tokens[x]) == c for _, ts in S.levels for x in ts) else None) for a, b, c in exp]     # the SQL form holds a precedence symbol only if it has a precedence
        m = re.search(r'SET start_symbol=(\d+)', t); start = sym.get(m.group(1)) if m else None
        levels = None
    if len(got) != len(exp): raise Mismatch('C13', '%d rules exported, the grammar has %d' % (len(got), len(exp)))
    for k, (e, q) in enumerate(zip(exp, got)):
        if tuple(e) != tuple(q): raise Mismatch('C13', 'rule %d exported as %s, it is %s' % (k + 1, q, e))
    if start is not None and start != S.nts[S.start]: raise Mismatch('C13', 'start symbol exported as %s, it is %s' % (start, S.nts[S.start]))
    if which in ('-n', '-N'):
        e = [(a, sorted(gengram.tname(S.tokens[x]) for x in ts)) for a, ts in S.levels]
        if [(a, sorted(b)) for a, b in levels] != e: raise Mismatch('C13', 'precedence levels exported as %s, they are %s' % (levels, e))
