"""Independent LALR(1) construction (merged LR(1) propagation to a fixpoint), used as the oracle of the bounded checks.
Terminals are 0..nt-1 (0 = end of input), nonterminals nt..; rules = list of (lhs, rhs tuple); rule 0 = $accept -> start."""

class Gram:
    def __init__(self, nt, nn, rules, start):
        self.nt, self.nn = nt, nn
        self.rules = [(-1, (start,))] + rules      # rule 0 = accept
        self.by = {}
        for i, (l, r) in enumerate(self.rules): self.by.setdefault(l, []).append(i)
        self.start = start
        self._nullable(); self._first()
    def isn(self, s): return s >= self.nt
    def _nullable(self):
        N = set(); ch = True
        while ch:
            ch = False
            for l, r in self.rules:
                if l not in N and all(x in N for x in r): N.add(l); ch = True
        self.nullable = N
    def _first(self):
        F = {n: set() for n in range(self.nt, self.nt + self.nn)}; F[-1] = set(); ch = True
        while ch:
            ch = False
            for l, r in self.rules:
                for x in r:
                    add = F[x] if self.isn(x) else {x}
                    if not add <= F[l]: F[l] |= add; ch = True
                    if not (self.isn(x) and x in self.nullable): break
        self.first = F
    def first_seq(self, seq):
        out = set()
        for x in seq:
            if self.isn(x):
                out |= self.first[x]
                if x not in self.nullable: return out, False
            else:
                out.add(x); return out, False
        return out, True

class Lalr:
    def __init__(self, g):
        self.g = g
        self.lr0(); self.la()
    def closure0(self, kernel):
        g = self.g; items = set(kernel); todo = list(kernel)
        while todo:
            r, d = todo.pop()
            rhs = g.rules[r][1]
            if d < len(rhs) and g.isn(rhs[d]):
                for q in g.by.get(rhs[d], ()):
                    if (q, 0) not in items: items.add((q, 0)); todo.append((q, 0))
        return items
    def lr0(self):
        g = self.g
        k0 = frozenset([(0, 0)]); self.states = [k0]; idx = {k0: 0}; self.goto = []; self.items = []
        i = 0
        while i < len(self.states):
            it = self.closure0(self.states[i]); self.items.append(it)
            tr = {}
            for r, d in it:
                rhs = g.rules[r][1]
                if d < len(rhs): tr.setdefault(rhs[d], set()).add((r, d + 1))
            gt = {}
            for x in sorted(tr):
                k = frozenset(tr[x])
                if k not in idx: idx[k] = len(self.states); self.states.append(k)
                gt[x] = idx[k]
            self.goto.append(gt)
            i += 1
        self.index = idx
    def la(self):
        g = self.g; n = len(self.states)
        K = [{it: set() for it in s} for s in self.states]
        K[0][(0, 0)].add(0)
        dirty = set(range(n)); self.red = [None] * n
        fs = {}
        def fseq(r, d):
            if (r, d) not in fs: fs[(r, d)] = g.first_seq(g.rules[r][1][d:])
            return fs[(r, d)]
        while dirty:
            s = min(dirty); dirty.discard(s)
            la = {it: set(v) for it, v in K[s].items()}
            work = list(la)
            while work:
                r, d = work.pop(); rhs = g.rules[r][1]
                if d < len(rhs) and g.isn(rhs[d]):
                    f, nul = fseq(r, d + 1)
                    add = f | la[(r, d)] if nul else f
                    for q in g.by.get(rhs[d], ()):
                        cur = la.get((q, 0))
                        if cur is None: la[(q, 0)] = set(add); work.append((q, 0))
                        elif not add <= cur: cur |= add; work.append((q, 0))
            self.red[s] = {r: v for (r, d), v in la.items() if d == len(g.rules[r][1])}
            for (r, d), v in la.items():
                rhs = g.rules[r][1]
                if d < len(rhs):
                    t = self.goto[s][rhs[d]]
                    tgt = K[t][(r, d + 1)]
                    if not v <= tgt: tgt |= v; dirty.add(t)
        self.kernel_la = K

def resolve_byacc(L, rprec, sprec, lemon_prec=False):
    """byacc's documented conflict resolution. rprec[rule]/sprec[token] = (level, assoc) ; level 0 = none.
    Returns per state: {token: ('s',state)|('r',rule)|('x',)}, SR count, RR count."""
    g = L.g; acts = []; srs = []; rrs = []; dbl = []
    final = L.goto[0].get(g.start)
    for s in range(len(L.states)):
        by = {}
        for x, t in L.goto[s].items():
            if not g.isn(x): by.setdefault(x, []).append(('s', t))
        for r in sorted(L.red[s]):
            if r == 0: continue
            for x in L.red[s][r]: by.setdefault(x, []).append(('r', r))
        a = {}; sr = rr = 0
        for x, lst in by.items():
            pref = 0; ok = [True] * len(lst)
            if s == final and x == 0:      # accepting conflicts with every reduction
                for p in lst: sr += 1
                a[x] = ('x',); continue
            for k in range(1, len(lst)):
                p = lst[k]; q = lst[pref]
                pl, pa = rprec[p[1]]; ql, qa = sprec[x] if q[0] == 's' else rprec[q[1]]
                if q[0] == 's':
                    if ql > 0 and pl > 0:
                        if ql < pl or (ql == pl and qa == 'left'): ok[pref] = False; pref = k
                        elif ql > pl or qa == 'right': ok[k] = False
                        else: ok[pref] = ok[k] = False
                    else: sr += 1; ok[k] = False
                else:
                    if lemon_prec and ql > 0 and pl > 0 and ql != pl:
                        if ql < pl: ok[pref] = False; pref = k
                        else: ok[k] = False
                    else: rr += 1; ok[k] = False
            rem = [lst[k] for k in range(len(lst)) if ok[k]]
            a[x] = rem[0] if rem else ('x',)
            if len(rem) > 1: dbl.append((s, x))
        acts.append(a); srs.append(sr); rrs.append(rr)
    return acts, srs, rrs
