/* Drives single routines of lemon.c (compiled in from /repo, entry point renamed) with random data and compares with a naive model.
   unit_lemon MODE FIRST LAST: runs one case per seed; prints "BAD seed ..." and stops at the first case that goes wrong. */
#define main lemon_main
#include LEMON_C
#undef main
static int bad(const char *f, long s, const char *what, long a, long b, long c){ (void)f; printf("BAD seed %ld: %s (%ld, %ld, %ld)\n", s, what, a, b, c); exit(3); }
#define R(n) ((int)(rnd() % (unsigned)(n)))
static unsigned long long st_;
static unsigned rnd(void){ st_ ^= st_ << 13; st_ ^= st_ >> 7; st_ ^= st_ << 17; return (unsigned)(st_ >> 20); }
static void seed(long s){ int i; st_ = 88172645463325252ull ^ ((unsigned long long)s * 0x9E3779B97F4A7C15ull); if (!st_) st_ = 1; for (i = 0; i < 8; i++) rnd(); }

/* rows packed into the action table must be found again, complete and without intruders */
typedef struct { int n, la[40], ac[40], safe, off; } row;
static int cmpr(const void *a, const void *b){ const row *x = a, *y = b; return y->n != x->n ? y->n - x->n : (x < y ? -1 : x > y); }
static void m_acttab(long s){
  static row T[300]; int nt = 1 + R(7), nn = 1 + R(12), ns = nt + nn, nr = 1 + R(R(4) ? 20 : 200), sp = 1 + R(8), na = 1 + R(60), i, k, c;
  acttab *p = acttab_alloc(ns, nt);
  for (i = 0; i < nr; i++) { int lo, hi; T[i].n = 0; T[i].safe = R(2); lo = T[i].safe ? 0 : nt; hi = T[i].safe ? nt : ns;
    for (c = lo; c < hi; c++) if (R(8) < sp) { T[i].la[T[i].n] = c; T[i].ac[T[i].n++] = R(na); }
    if (!T[i].n) { T[i].la[0] = lo + R(hi - lo); T[i].ac[0] = R(na); T[i].n = 1; } }
  qsort(T, nr, sizeof(row), cmpr);
  for (i = 0; i < nr; i++) { for (k = 0; k < T[i].n; k++) acttab_action(p, T[i].la[k], T[i].ac[k]); T[i].off = acttab_insert(p, T[i].safe); }
  for (i = 0; i < nr; i++) { int lo = T[i].safe ? 0 : nt, hi = T[i].safe ? nt : ns;
    for (c = lo; c < hi; c++) { int want = -1, x = T[i].off + c, got = -1; for (k = 0; k < T[i].n; k++) if (T[i].la[k] == c) want = T[i].ac[k];
      if (x >= 0 && x < p->nAction && p->aAction[x].lookahead == c) got = p->aAction[x].action;
      if (got != want) bad("acttab", s, "action table: row, symbol, action found differs from the one stored", i, c, got);
      if (T[i].safe && (x < 0 || x >= p->nAction)) bad("acttab", s, "action table: token lookup outside the table", i, c, x); } }
  acttab_free(p);
}

/* lists: every element once, in the order of the comparison */
static int sgn(int x){ return x < 0 ? -1 : x > 0; }
static void m_sort(long s){
  int n = R(5) ? R(40) : R(3) ? 60 + R(10) : R(2000), i, cnt; static struct rule RU[2001]; static struct action A[2001]; static struct config C[2001]; static struct symbol S[64]; static struct state ST[8]; static int key[2001];
  struct rule *rp; struct action *ap; struct config *cp; struct lemon L;
  int ns = 1 + R(20); memset(&L, 0, sizeof L);
  for (i = 0; i < 64; i++) { memset(&S[i], 0, sizeof S[i]); S[i].index = i; }
  /* rules */
  memset(RU, 0, sizeof RU);
  for (i = 0; i < n; i++) key[i] = i;
  for (i = n - 1; i > 0; i--) { int j = R(i + 1), t = key[i]; key[i] = key[j]; key[j] = t; }
  for (i = 0; i < n; i++) { RU[i].iRule = key[i] * (1 + R(1)); RU[i].index = i; RU[i].next = i + 1 < n ? &RU[i + 1] : 0; }
  rp = Rule_sort(n ? RU : 0);
  for (cnt = 0, i = 0; rp; rp = rp->next, cnt++) if (rp->iRule != cnt) bad("sort", s, "Rule_sort: position, rule number there, length", cnt, rp->iRule, n);
  if (cnt != n) bad("sort", s, "Rule_sort: elements returned, given", cnt, n, 0);
  /* actions */
  for (i = 0; i < n; i++) { memset(&A[i], 0, sizeof A[i]); A[i].sp = &S[R(ns)]; A[i].type = R(11); if (A[i].type == REDUCE || A[i].type == SHIFTREDUCE) A[i].x.rp = &RU[R(n)]; else A[i].x.stp = &ST[R(8)]; A[i].next = i + 1 < n ? &A[i + 1] : 0; }
  if (n) { static char seen[2001]; struct action *pr = 0; memset(seen, 0, sizeof seen);
    ap = Action_sort(A);
    for (cnt = 0; ap && cnt <= n; pr = ap, ap = ap->next, cnt++) {
      if (seen[ap - A]++) bad("sort", s, "Action_sort: element returned twice", ap - A, n, 0);
      if (pr && (pr->sp->index > ap->sp->index || (pr->sp == ap->sp && (pr->type > ap->type || (pr->type == ap->type && (ap->type == REDUCE || ap->type == SHIFTREDUCE) && pr->x.rp->index > ap->x.rp->index))))) bad("sort", s, "Action_sort: out of order at", cnt, n, 0); }
    if (cnt != n) bad("sort", s, "Action_sort: elements returned, given", cnt, n, 0);
    for (i = 0; i < 20; i++) { struct action *x = &A[R(n)], *y = &A[R(n)], *z = &A[R(n)]; int a = actioncmp(x, y), b = actioncmp(y, x), c = actioncmp(y, z), d = actioncmp(x, z);
      if (sgn(a) != -sgn(b) || (a < 0 && c < 0 && d >= 0) || ((a == 0) != (x == y))) bad("sort", s, "actioncmp is not an order", x - A, y - A, z - A); } }
  /* configurations, through both link fields */
  for (i = 0; i < n; i++) { memset(&C[i], 0, sizeof C[i]); C[i].rp = &RU[R(n) % (1 + R(30))]; C[i].dot = R(6); C[i].next = i + 1 < n ? &C[i + 1] : 0; C[i].bp = C[i].next; }
  if (n) { int w; for (w = 0; w < 2; w++) { static char seen[2001]; struct config *pr = 0; memset(seen, 0, sizeof seen);
    L.current = C; if (w == 0) { Configlist_sort(&L); cp = L.current; } else { Configlist_sortbasis(&L); cp = L.basis; }
    for (cnt = 0; cp && cnt <= n; pr = cp, cp = w ? cp->bp : cp->next, cnt++) {
      if (seen[cp - C]++) bad("sort", s, "Configlist_sort: element returned twice", cp - C, n, w);
      if (pr && (pr->rp->index > cp->rp->index || (pr->rp == cp->rp && pr->dot > cp->dot))) bad("sort", s, "Configlist_sort: out of order at", cnt, n, w); }
    if (cnt != n) bad("sort", s, "Configlist_sort: elements returned, given", cnt, n, w); } }
  /* qsort comparisons */
  for (i = 0; i < 20; i++) { struct axset a[3]; struct state t[3], *tp[3]; struct symbol y[3], *yp[3]; int j, x, z, w, m; static const char *nm[] = {"A", "z", "Zz", "a", "_x", "M"};
    memset(a, 0, sizeof a); memset(t, 0, sizeof t); memset(y, 0, sizeof y);
    for (j = 0; j < 3; j++) { a[j].nAction = R(3); a[j].iOrder = j; t[j].nNtAct = R(2); t[j].nTknAct = R(2); t[j].statenum = j; tp[j] = &t[j]; y[j].index = j; y[j].name = nm[R(6)]; y[j].type = R(4) ? (y[j].name[0] > 'Z' ? NONTERMINAL : TERMINAL) : MULTITERMINAL; yp[j] = &y[j]; }
    for (m = 0; m < 3; m++) { for (x = 0; x < 3; x++) for (z = 0; z < 3; z++) if (x != z) for (w = 0; w < 3; w++) if (w != z && w != x) {
#define CMP(p, q) (m == 0 ? axset_compare(&a[p], &a[q]) : m == 1 ? stateResortCompare(&tp[p], &tp[q]) : Symbolcmpp(&yp[p], &yp[q]))
      if (CMP(x, z) == 0 || sgn(CMP(x, z)) != -sgn(CMP(z, x)) || (CMP(x, z) < 0 && CMP(z, w) < 0 && CMP(x, w) >= 0)) bad("sort", s, "comparison is not an order", m, x, z);
      if (m == 0 && a[x].nAction > a[z].nAction && CMP(x, z) > 0) bad("sort", s, "axset_compare: larger set not first", x, z, 0);
      if (m == 2) { int kx = y[x].type == MULTITERMINAL ? 2 : y[x].type == NONTERMINAL, kz = y[z].type == MULTITERMINAL ? 2 : y[z].type == NONTERMINAL;
        if (y[x].name[0] != '_' && y[z].name[0] != '_' && (kx < kz || (kx == kz && x < z)) && CMP(x, z) > 0) bad("sort", s, "Symbolcmpp: wrong order", x, z, 0); } } } }
}

/* name, symbol, state and item tables against a plain list */
static void m_tables(long s){
  struct lemon L; int n = R(4) ? R(60) : R(3) ? R(700) : 1000 + R(1500), i, j, nu = 0, al = 1 + R(4); static char *nm[3000]; static const char *st[3000]; static struct symbol *sy[3000]; char b[40];
  memset(&L, 0, sizeof L); Strsafe_init(&L); Symbol_init(&L); State_init(&L); Configtable_init(&L);
  for (i = 0; i < n; i++) { int len = 1 + R(R(3) ? 3 : 12), k; for (k = 0; k < len; k++) b[k] = "aBcdxyZ0_\xe9"[R(al + R(7))]; b[len] = 0; if (!((b[0] >= 'a' && b[0] <= 'z') || (b[0] >= 'A' && b[0] <= 'Z'))) b[0] = 'q';
    if (R(5) == 0) { char *t = b; k = R(900); sprintf(t, "%c%d", R(2) ? 'n' : 'N', k); }
    for (j = 0; j < nu; j++) if (!strcmp(nm[j], b)) break;
    if (Strsafe_find(&L, b) != (j < nu ? st[j] : 0)) bad("tables", s, "Strsafe_find: entry, known", i, j < nu, 0);
    if (Symbol_find(&L, b) != (j < nu ? sy[j] : 0)) bad("tables", s, "Symbol_find: entry, known", i, j < nu, 0);
    if (j < nu && R(2)) { if (Strsafe_insert(&L, strdup(b)) || Symbol_insert(&L, sy[j], strdup(b))) bad("tables", s, "an equal key was stored twice", i, 0, 0); }
    { const char *z = Strsafe(&L, b); struct symbol *q = Symbol_new(&L, b);
      if (!z || strcmp(z, b) || (j < nu && (z != st[j] || q != sy[j]))) bad("tables", s, "Strsafe/Symbol_new: entry", i, 0, 0);
      if (strcmp(q->name, b)) bad("tables", s, "Symbol_new: name", i, 0, 0);
      if (j == nu) { nm[nu] = strdup(b); st[nu] = z; sy[nu] = q; nu++; } }
    if (Symbol_count(&L) != nu) bad("tables", s, "Symbol_count", Symbol_count(&L), nu, 0); }
  for (i = 0; i < nu; i++) { if (Strsafe_find(&L, nm[i]) != st[i] || Symbol_find(&L, nm[i]) != sy[i]) bad("tables", s, "an entry is lost", i, nu, 0); if (Symbol_Nth(&L, i + 1) != sy[i]) bad("tables", s, "Symbol_Nth", i, nu, 0); }
  if (Symbol_Nth(&L, nu + 1) || Symbol_Nth(&L, 0)) bad("tables", s, "Symbol_Nth out of range", nu, 0, 0);
  if (nu) { struct symbol **a = Symbol_arrayof(&L); for (i = 0; i < nu; i++) if (a[i] != sy[i]) bad("tables", s, "Symbol_arrayof", i, nu, 0); }
  for (i = 0; i < nu; i++) free(nm[i]);
  { static struct rule RU[500]; static struct config *c[3000]; static struct state *sp[3000]; int nr = 1 + R(500), round, md = 1 + R(8);
    memset(RU, 0, sizeof RU); for (i = 0; i < nr; i++) RU[i].index = i;
    for (round = 0; round < 2; round++) { nu = 0;
      for (i = 0; i < n; i++) { struct config *x = calloc(1, sizeof *x); x->rp = &RU[R(nr)]; x->dot = R(md);
        for (j = 0; j < nu; j++) if (c[j]->rp == x->rp && c[j]->dot == x->dot) break;
        if (Configtable_find(&L, x) != (j < nu ? c[j] : 0)) bad("tables", s, "Configtable_find: entry, known, round", i, j < nu, round);
        if (Configtable_insert(&L, x) != (j == nu)) bad("tables", s, "Configtable_insert: entry, known", i, j < nu, 0);
        if (j == nu) c[nu++] = x; }
      for (i = 0; i < nu; i++) if (Configtable_find(&L, c[i]) != c[i]) bad("tables", s, "an item is lost", i, nu, round);
      if (round == 0) { Configtable_clear(&L, 0); for (i = 0; i < nu; i++) if (Configtable_find(&L, c[i])) bad("tables", s, "an item survives clearing", i, nu, 0); } }
    nu = 0; if (n > 800) n = 800;
    for (i = 0; i < n; i++) { int len = 1 + R(4), k; struct config *h = 0, *p; for (k = 0; k < len; k++) { p = calloc(1, sizeof *p); p->rp = &RU[R(R(2) ? nr : 3 < nr ? 3 : nr)]; p->dot = R(md); p->bp = h; h = p; }
      for (j = 0; j < nu; j++) { struct config *a = c[j], *e = h; while (a && e && a->rp == e->rp && a->dot == e->dot) { a = a->bp; e = e->bp; } if (!a && !e) break; }
      if (State_find(&L, h) != (j < nu ? sp[j] : 0)) bad("tables", s, "State_find: entry, known", i, j < nu, 0);
      { struct state *q = State_new(); if (State_insert(&L, q, h) != (j == nu)) bad("tables", s, "State_insert: entry, known", i, j < nu, 0); if (j == nu) { c[nu] = h; sp[nu++] = q; } } }
    for (i = 0; i < nu; i++) if (State_find(&L, c[i]) != sp[i]) bad("tables", s, "a state is lost", i, nu, 0);
    if (nu) { struct state **a = State_arrayof(&L); for (i = 0; i < nu; i++) if (a[i] != sp[i]) bad("tables", s, "State_arrayof", i, nu, 0); } }
}
/* token sets */
static void m_sets(long s){
  struct lemon L; int n, i, k, e; char *x, *y; memset(&L, 0, sizeof L); n = 1 + R(R(3) ? 20 : 300); SetSize(&L, n);
  for (k = 0; k < 6; k++) { char *mx = calloc(1, n + 1), *my = calloc(1, n + 1); int ch = 0; x = SetNew(&L); y = SetNew(&L);
    for (i = 0; i < n; i++) if (x[i] || y[i]) bad("sets", s, "a new set is not empty", i, n, 0);
    for (i = 0; i < n; i++) { e = R(n); if (SetAdd(&L, x, e) != !mx[e]) bad("sets", s, "SetAdd result", e, n, 0); mx[e] = 1; if (R(2)) { e = R(n); SetAdd(&L, y, e); my[e] = 1; } }
    for (i = 0; i < n; i++) if (!!SetFind(x, i) != mx[i] || !!SetFind(y, i) != my[i]) bad("sets", s, "membership", i, n, 0);
    for (i = 0; i < n; i++) if (my[i] && !mx[i]) { mx[i] = 1; ch = 1; }
    if (!!SetUnion(&L, x, y) != ch) bad("sets", s, "SetUnion result", ch, n, 0);
    for (i = 0; i < n; i++) if (!!SetFind(x, i) != mx[i] || !!SetFind(y, i) != my[i]) bad("sets", s, "union", i, n, 0);
    SetFree(x); SetFree(y); free(mx); free(my); }
}
int main(int argc, char **argv){
  long a = atol(argv[2]), b = atol(argv[3]), s; (void)argc;
  for (s = a; s < b; s++) { seed(s);
    switch (argv[1][0]) { case 'a': m_acttab(s); break; case 's': m_sort(s); break; case 't': m_tables(s); break; case 'e': m_sets(s); break; } }
  printf("ok %ld\n", b - a);
  return 0;
}
