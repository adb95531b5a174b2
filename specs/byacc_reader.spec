== hexval files=byacc/reader.c props=C08
ensures digit: result = (if 48 <= c <= 57 then c - 48 else if 65 <= c <= 70 then c - 55 else if 97 <= c <= 102 then c - 87 else -1)

== cachec files=byacc/reader.c props=C10,C08
singleton byacc_t:s_
opt chars
requires shape: s_cinc >= 0 /\ s_cinc <= s_cache_size /\ s_cache > 0 /\ #len(s_cache)[s_cache] = s_cache_size /\ #brk(s_cache) >= s_cache + s_cache_size
ensures appended: s_cinc = old s_cinc + 1 /\ #s_cache[old s_cinc] = sch c
ensures kept: forall k. 0 <= k < old s_cinc -> #s_cache[k] = (old #heap(s_cache[]))[off (old s_cache) k]
ensures shape: s_cinc <= s_cache_size /\ s_cache > 0 /\ #len(s_cache)[s_cache] = s_cache_size /\ #brk(s_cache) >= s_cache + s_cache_size /\ #brk(s_cache) >= old #brk(s_cache) /\ (s_cache = old s_cache \/ s_cache >= old #brk(s_cache))
ensures frame: forall x. x < old #brk(s_cache) -> (x < old s_cache \/ x >= old s_cache + old s_cache_size) -> #heap(s_cache[])[x] = (old #heap(s_cache[]))[x]

== is_reserved files=byacc/reader.c props=C06,C09
opt strlits
requires name: exists n. isstr #heap(name[]) name n
ensures exactly: result <> 0 <-> (#heap(name[])[off name 0] = 46 /\ #heap(name[])[off name 1] = 0) \/ (#heap(name[])[off name 0] = 36 /\ #heap(name[])[off name 1] = 97 /\ #heap(name[])[off name 2] = 99 /\ #heap(name[])[off name 3] = 99 /\ #heap(name[])[off name 4] = 101 /\ #heap(name[])[off name 5] = 112 /\ #heap(name[])[off name 6] = 116 /\ #heap(name[])[off name 7] = 0) \/ (#heap(name[])[off name 0] = 36 /\ #heap(name[])[off name 1] = 101 /\ #heap(name[])[off name 2] = 110 /\ #heap(name[])[off name 3] = 100 /\ #heap(name[])[off name 4] = 0) \/
   (slen #heap(name[]) name >= 3 /\ #heap(name[])[off name 0] = 36 /\ #heap(name[])[off name 1] = 36 /\ forall i. 2 <= i < slen #heap(name[]) name -> 48 <= #heap(name[])[off name i] <= 57)
ensures bool: result = 0 \/ result = 1
loop 1
before: assert { off name 0 = name /\ off name 3 = s /\ off name 2 = name + 2 /\ off name 1 = name + 1 /\ slen #heap(name[]) name >= 3 };
inv s: 3 <= s - name <= slen #heap(name[]) name
inv d: forall i. 2 <= i < s - name -> 48 <= #heap(name[])[off name i] <= 57
after: assert { off name (s - name) = s };
start: assert { off name (s - name) = s };
var: slen #heap(name[]) name - (s - name)

== get_number files=byacc/reader.c props=C09
singleton byacc_t:s_
logic:
 constant ln : int
 function nv (m: map int int) (p k: int) : int
 axiom nv_0: forall m p. nv m p 0 = 0
 axiom nv_s: forall m p k k1 [nv m p k, nv m p k1]. k >= 0 -> k1 = k + 1 -> nv m p k1 = 10 * nv m p k + (m[off p k] - 48)
requires digits: ln >= 0 /\ (forall k. 0 <= k < ln -> 48 <= #s_cptr[k] <= 57) /\ not (48 <= #s_cptr[ln] <= 57)
ghost let ref gk = 0 in
ensures value: result = nv #heap(s_cptr[]) (old s_cptr) ln
ensures next: s_cptr = off (old s_cptr) ln
loop 1
inv k: 0 <= gk <= ln /\ s_cptr = off (s_cptr at L1) gk /\ c = #heap(s_cptr[])[s_cptr]
inv n: n = nv #heap(s_cptr[]) (s_cptr at L1) gk /\ n >= 0
body: assert { #heap(s_cptr[])[off (s_cptr at L1) gk] = c /\ off (s_cptr at L1) (gk + 1) = s_cptr + 1 };
after_body: gk <- gk + 1
var: ln - gk

== get_line files=byacc/reader.c props=C10
singleton byacc_t:s_
opt chars
opt ghost_writes gpos
use input.Input
extern getc fgetc_ val
extern line_directive line_directive_ val
extern fgetpos x drop
ghost let ref gb = 0 in
requires shape: s_linesize >= 0 /\ #brk(s_line) > 0 /\ (s_line <> 0 -> s_line > 0 /\ #len(s_line)[s_line] = s_linesize /\ s_line + s_linesize <= #brk(s_line))
ensures line: s_line <> 0 -> s_cptr = s_line /\ exists b n. b >= old gpos /\ n >= 0 /\ (forall k. 0 <= k < n -> #heap(s_line[])[off s_line k] = sch (fch (b + k)) /\ fch (b + k) <> 10) /\
  #heap(s_line[])[off s_line n] = 10 /\ (fch (b + n) = 10 \/ fch (b + n) = -1) /\ #heap(s_line[])[off s_line (n + 1)] = 0 /\ gpos = b + n + 1
ensures storage: s_linesize >= 0 /\ #brk(s_line) >= old #brk(s_line) /\ (s_line <> 0 -> s_line > 0 /\ #len(s_line)[s_line] = s_linesize /\ s_line + s_linesize <= #brk(s_line))
ensures frame: forall x. x < old #brk(s_line) -> (x < old s_line \/ x >= old s_line + old s_linesize) -> #heap(s_line[])[x] = (old #heap(s_line[]))[x]
loop 1
inv shape: s_linesize >= 0 /\ gpos >= old gpos /\ #brk(s_line) >= old #brk(s_line) /\ (s_line <> 0 -> s_line > 0 /\ #len(s_line)[s_line] = s_linesize /\ s_line + s_linesize <= #brk(s_line))
inv where: (s_line = old s_line /\ s_linesize = old s_linesize) \/ s_line >= old #brk(s_line) \/ s_line = 0
inv frame: forall x. x < old #brk(s_line) -> (x < old s_line \/ x >= old s_line + old s_linesize) -> #heap(s_line[])[x] = (old #heap(s_line[]))[x]
loop 2
before: gb <- gpos - 1
inv i: 0 <= i < s_linesize - 2 /\ gb >= old gpos /\ gpos = gb + i + 1 /\ c = fch (gb + i)
inv chars: forall k. 0 <= k < i -> #heap(s_line[])[off s_line k] = sch (fch (gb + k)) /\ fch (gb + k) <> 10
inv shape: #brk(s_line) >= old #brk(s_line) /\ s_line > 0 /\ #len(s_line)[s_line] = s_linesize /\ s_line + s_linesize <= #brk(s_line)
inv where: (s_line = old s_line /\ s_linesize = old s_linesize) \/ s_line >= old #brk(s_line)
inv frame: forall x. x < old #brk(s_line) -> (x < old s_line \/ x >= old s_line + old s_linesize) -> #heap(s_line[])[x] = (old #heap(s_line[]))[x]
after: assert { fch (gb + (gpos - gb - 1)) = 10 \/ fch (gb + (gpos - gb - 1)) = -1 };
 assert { #heap(s_line[])[off s_line (gpos - gb - 1)] = 10 /\ i = gpos - gb /\ i < s_linesize };

== dup_line files=byacc/reader.c props=C10
singleton byacc_t:s_
requires line: s_line <> 0 -> s_line > 0 /\ exists n. n >= 0 /\ #heap(s_line[])[off s_line n] = 10
requires brk: #brk(result) > 0
ensures copy: s_line <> 0 -> forall n. n >= 0 -> (forall k. 0 <= k < n -> #heap(s_line[])[off s_line k] <> 10) -> #heap(s_line[])[off s_line n] = 10 -> forall k. 0 <= k <= n -> #result[k] = #heap(s_line[])[off s_line k]
ensures brk: #brk(result) > 0
ghost let ref gk = 0 in
loop 1
inv s: s >= s_line /\ forall k. 0 <= k < s - s_line -> #heap(s_line[])[off s_line k] <> 10
start: assert { off s_line (s - s_line) = s };
loop 2
inv s: gk >= 0 /\ s = off s_line gk /\ t = off p gk
inv k: forall k. 0 <= k < gk -> #p[k] = #heap(s_line[])[off s_line k] /\ #p[k] <> 10
body: gk <- gk + 1;
 assert { off s_line gk = s /\ off p gk = t };
after: assert { #p[gk] = 10 };

== get_literal files=byacc/reader.c,byacc/symtab.c,byacc/main.c props=C08
singleton byacc_t:s_
opt chars
opt callee lookup=lookup@any
use literal.Literal
use input.Input
ghost let ref gm : map int int = any (map int int) in
ghost let ref gp = 0 in
ghost let ref gk = 0 in
ghost let ref gx = 0 in
ghost let ref gt = 0 in
ghost let ref gh : map int int = any (map int int) in
ghost let ref gc = 0 in
ghost let ref gs = 0 in
requires cache: s_cache > 0 /\ s_cache_size >= 0 /\ #len(s_cache)[s_cache] = s_cache_size /\ #brk(s_cache) >= s_cache + s_cache_size
requires line: s_linesize >= 0 /\ #brk(s_line) > 0 /\ s_line > 0 /\ #len(s_line)[s_line] = s_linesize /\ s_line + s_linesize <= #brk(s_line) /\ (exists n. n >= 0 /\ #heap(s_line[])[off s_line n] = 10)
requires brk: #brk(result) > 0 /\ #brk(result->name) > 0 /\ #brk(a->a_line) > 0
ensures token: #result->class = 1
loop 1
inv cache: s_cinc >= 0 /\ s_cinc <= s_cache_size /\ s_cache > 0 /\ #len(s_cache)[s_cache] = s_cache_size /\ #brk(s_cache) >= s_cache + s_cache_size
inv line: s_linesize >= 0 /\ #brk(s_line) > 0 /\ s_line > 0 /\ #len(s_line)[s_line] = s_linesize /\ s_line + s_linesize <= #brk(s_line) /\ #brk(result) > 0 /\ #brk(result->name) > 0
inv chars: forall k. 0 <= k < s_cinc -> uch #s_cache[k] = gm[k]
start: gp <- s_cptr
before_call cachec#1: assert { [@expl:each character is decoded as spelled] dec #heap(s_cptr[]) gp c s_cptr };
 gm <- mset gm s_cinc (uch c);
after: gt <- s_cinc;
loop 2
before: gx <- s_cptr - 1; gk <- 1;
inv k: gk >= 1 /\ s_cptr = off gx gk /\ gx = gp + 2 /\ n = hx #heap(s_cptr[]) gx gk /\ (forall k. 0 <= k < gk -> hd #heap(s_cptr[])[off gx k] >= 0)
after_body: gk <- gk + 1
loop 3
inv i: 0 <= i <= n /\ n = gt
inv s: forall k. 0 <= k < i -> #s[k] = #s_cache[k]
after: assert { forall k. 0 <= k < n -> uch #s[k] = gm[k] };
loop 4
inv n: n = gt /\ 0 <= i <= n
inv s: forall k. 0 <= k < n -> uch #s[k] = gm[k]
inv cache: s_cinc >= 1 /\ s_cinc <= s_cache_size /\ s_cache > 0 /\ #len(s_cache)[s_cache] = s_cache_size /\ #brk(s_cache) >= s_cache + s_cache_size
inv quote: #s_cache[0] = (if n = 1 then 39 else 34)
inv pos: s_cinc = pos gm (if n = 1 then 39 else 34) i
inv text: spelled #heap(s_cache[]) s_cache gm (if n = 1 then 39 else 34) i
inv nonzero: forall k. 0 <= k < s_cinc -> #s_cache[k] <> 0
body: gh <- #heap(s_cache[]); gc <- s_cache; gs <- s_cinc;
after_body: assert { same gh #heap(s_cache[]) gc s_cache gs };
 assert { here #heap(s_cache[]) s_cache gs (if n = 1 then 39 else 34) gm[i] };
 assert { s_cinc = gs + elen (if n = 1 then 39 else 34) gm[i] };
 assert { pos gm (if n = 1 then 39 else 34) (i + 1) = s_cinc };
 assert { spelled #heap(s_cache[]) s_cache gm (if n = 1 then 39 else 34) (i + 1) };
before_call lookup: assert { #s_cache[0] = (if n = 1 then 39 else 34) };
 assert { spelled #heap(s_cache[]) s_cache gm (if n = 1 then 39 else 34) n };
 assert { [@expl:canonical spelling] canonical #heap(s_cache[]) s_cache gm n };
 assert { isstr #heap(s_cache[]) s_cache (s_cinc - 1) };
store ->value: assert { [@expl:code of a single character] #bp->value = gm[0] /\ n = 1 };

== pack_symbols files=byacc/reader.c,byacc/main.c props=C07
singleton byacc_t:s_
opt dead 13,14,15
logic:
 (* the symbols in the order of first mention, their class and declared code; the number of terminals and nonterminals among the first n; the place of each symbol (terminals first) and the symbol at each place *)
 constant nb : int
 function bk int : int
 function cls int : int
 function dv int : int
 function tn int : int
 axiom tn_0: tn 0 = 0
 axiom tn_s: forall k k1 [tn k, tn k1]. k >= 0 -> k1 = k + 1 -> tn k1 = tn k + (if cls k = 1 then 1 else 0)
 constant nt : int = 1 + tn nb
 function ix (k: int) : int = if cls k = 1 then 1 + tn k else nt + 1 + (k - tn k)
 function kx int : int
 constant gl : int
 function sb (p: int) : int = bk (kx p)
 function gx (p: int) : int = if p <= nt then p else if p = ix gl then nt + 1 else if p < ix gl then p + 1 else p
requires list: nb >= 1 /\ s_first_symbol = bk 0 /\ bk nb = 0 /\ (forall k. 0 <= k < nb -> 0 < bk k < #brk(s_first_symbol) /\ #heap(s_first_symbol->next)[bk k] = bk (k + 1) /\ #heap(s_first_symbol->class)[bk k] = cls k /\ #heap(s_first_symbol->value)[bk k] = dv k)
requires distinct: forall j k. 0 <= j < nb -> 0 <= k < nb -> bk j = bk k -> j = k
requires places: (forall k. 0 <= k < nb -> kx (ix k) = k /\ (if cls k = 1 then 1 <= ix k < nt else nt < ix k < nb + 2)) /\ (forall i. 0 < i < nb + 2 -> i <> nt -> 0 <= kx i < nb /\ ix (kx i) = i)
requires first: cls 0 = 1 /\ 0 <= gl < nb /\ cls gl <> 1 /\ s_goal = bk gl
requires codes: forall k. 0 <= k < nb -> dv k >= -1
requires nograph: s_gflag = 0
ensures counts: s_nsyms = nb + 2 /\ s_ntokens = nt /\ s_start_symbol = nt /\ s_nvars = nb + 2 - nt
ensures declared-kept: forall k. 0 <= k < nb -> cls k = 1 -> dv k <> -1 -> #heap(s_first_symbol->value)[bk k] = dv k
ensures error: dv 0 = -1 -> #heap(s_first_symbol->value)[bk 0] = 256
ensures automatic: forall k. 0 < k < nb -> cls k = 1 -> dv k = -1 -> #heap(s_first_symbol->value)[bk k] > 256
ensures unique: forall j k. 0 <= j < nb -> 0 < k < nb -> j <> k -> cls j = 1 -> cls k = 1 -> dv k = -1 -> #heap(s_first_symbol->value)[bk j] <> #heap(s_first_symbol->value)[bk k]
ensures in-order: forall j k. 0 < j < nb -> 0 < k < nb -> ix j < ix k -> cls j = 1 -> cls k = 1 -> dv j = -1 -> dv k = -1 -> #heap(s_first_symbol->value)[bk j] < #heap(s_first_symbol->value)[bk k]
ensures nonterminals: forall k. 0 <= k < nb -> cls k <> 1 -> #heap(s_first_symbol->value)[bk k] = gx (ix k) - nt - 1
ensures numbers: forall k. 0 <= k < nb -> #heap(s_first_symbol->index)[bk k] = gx (ix k)
ensures tables: forall k. 0 <= k < nb -> #s_symbol_name[gx (ix k)] = #heap(s_first_symbol->name)[bk k] /\ #s_symbol_value[gx (ix k)] = #heap(s_first_symbol->value)[bk k] /\ #s_symbol_prec[gx (ix k)] = #heap(s_first_symbol->prec)[bk k] /\ #s_symbol_assoc[gx (ix k)] = #heap(s_first_symbol->assoc)[bk k]
ensures special: #s_symbol_value[0] = 0 /\ #s_symbol_value[nt] = -1 /\ #s_symbol_name[0] = s_name_pool + 8 /\ #s_symbol_name[nt] = s_name_pool /\ #s_symbol_prec[0] = 0 /\ #s_symbol_prec[nt] = 0 /\ #s_symbol_assoc[0] = 0 /\ #s_symbol_assoc[nt] = 0
ensures printed: #s_symbol_pval[0] = 0 /\ (forall k. 0 <= k < nb -> (if cls k = 1 then #s_symbol_pval[gx (ix k)] = #heap(s_first_symbol->value)[bk k] /\ #s_symbol_pval[gx (ix k)] < #s_symbol_pval[nt] else #s_symbol_pval[gx (ix k)] = #s_symbol_pval[nt] + 1 + #heap(s_first_symbol->value)[bk k]))
ghost let ref gk = 0 in
ghost let ref gw : map int int = any (map int int) in
loop 1
inv k: 0 <= gk <= nb /\ bp = bk gk /\ s_nsyms = 2 + gk /\ s_ntokens = 1 + tn gk
after_body: gk <- gk + 1
loop 2
before: gk <- 0
inv k: 0 <= gk <= nb /\ bp = bk gk /\ i = 1 + tn gk /\ j = nt + 1 + gk - tn gk
inv v: forall k. 0 <= k < gk -> #v[ix k] = bk k
body: assert { ix gk = (if cls gk = 1 then i else j) };
after_body: gk <- gk + 1
after: assert { forall p. 0 < p < nb + 2 -> p <> nt -> #v[p] = sb p };
 assert { forall p q. 0 < p < nb + 2 -> p <> nt -> 0 < q < nb + 2 -> q <> nt -> sb p = sb q -> p = q };
 assert { sb (ix gl) = s_goal /\ nt < ix gl < nb + 2 };
loop 3
inv i: 1 <= i <= nt
inv index: forall p. 0 < p < i -> #heap(s_first_symbol->index)[sb p] = p
loop 4
inv i: nt <= i < nb + 2 /\ k = i + 2 - (if ix gl <= i then 1 else 0)
inv index: forall p. 0 < p < nt \/ nt < p <= i \/ p = ix gl -> #heap(s_first_symbol->index)[sb p] = gx p
after: assert { forall p. 0 < p < nb + 2 -> p <> nt -> #heap(s_first_symbol->index)[sb p] = gx p };
loop 5
inv i: nt < i <= nb + 2 /\ k = i - nt - (if ix gl < i then 1 else 0)
inv values: forall p. nt < p < i \/ p = ix gl -> #heap(s_first_symbol->value)[sb p] = gx p - nt - 1
inv tokens: forall p. 0 < p < nt -> #heap(s_first_symbol->value)[sb p] = dv (kx p)
loop 6
inv i: 1 <= i <= nt /\ 0 <= k < i
inv big: forall x. 0 <= x < k -> #s_symbol_value[x] > 256
inv sorted: forall x y. 0 <= x < y < k -> #s_symbol_value[x] <= #s_symbol_value[y]
inv there: forall p. 0 < p < i -> dv (kx p) > 256 -> 0 <= gw[p] < k /\ #s_symbol_value[gw[p]] = dv (kx p)
loop 7
inv j: 0 <= j <= k - 1 /\ n > 256
inv low: forall x. 0 <= x <= j -> #s_symbol_value[x] = (#heap(s_symbol_value[]) at L7)[off s_symbol_value x]
inv high: forall x. j < x < k -> #s_symbol_value[x] = (#heap(s_symbol_value[]) at L7)[off s_symbol_value (x - 1)] /\ #s_symbol_value[x] > n
after: gw <- (let w = gw in let jj = j in let ii = i in (fun p -> if p = ii then jj else if w[p] >= jj then w[p] + 1 else w[p]));
loop 8
inv i: 2 <= i <= nt /\ n >= 257 /\ 0 <= j <= k
inv below: forall x. 0 <= x < j -> #s_symbol_value[x] < n
inv above: forall x. j <= x < k -> #s_symbol_value[x] >= n
inv auto: forall p. 2 <= p < i -> dv (kx p) = -1 -> 257 <= #heap(s_first_symbol->value)[sb p] < n /\ (forall x. 0 <= x < k -> #s_symbol_value[x] <> #heap(s_first_symbol->value)[sb p])
inv order: forall p q. 2 <= p < q < i -> dv (kx p) = -1 -> dv (kx q) = -1 -> #heap(s_first_symbol->value)[sb p] < #heap(s_first_symbol->value)[sb q]
inv kept: forall p. 0 < p < nt -> dv (kx p) <> -1 \/ p >= i -> p >= 2 \/ dv (kx p) <> -1 -> #heap(s_first_symbol->value)[sb p] = dv (kx p)
inv error: dv (kx 1) = -1 -> #heap(s_first_symbol->value)[sb 1] = 256
inv vars: forall p. nt < p < nb + 2 -> #heap(s_first_symbol->value)[sb p] = gx p - nt - 1
loop 9
inv n: n >= (n at L9) /\ 0 <= j <= k
inv below: forall x. 0 <= x < j -> #s_symbol_value[x] < n
inv above: forall x. j <= x < k -> #s_symbol_value[x] >= n
loop 10
inv j: (j at L10) <= j < k /\ #s_symbol_value[j] = n
inv below: forall x. 0 <= x < j -> #s_symbol_value[x] <= n
loop 11
inv i: 1 <= i <= nt
inv tables: forall p. 0 < p < i -> #s_symbol_name[p] = #heap(s_first_symbol->name)[sb p] /\ #s_symbol_value[p] = #heap(s_first_symbol->value)[sb p] /\ #s_symbol_prec[p] = #heap(s_first_symbol->prec)[sb p] /\ #s_symbol_assoc[p] = #heap(s_first_symbol->assoc)[sb p] /\ #s_symbol_pval[p] = #heap(s_first_symbol->value)[sb p] /\ #s_symbol_pval[p] <= max_tok_pval
inv special: #s_symbol_value[0] = 0 /\ #s_symbol_name[0] = s_name_pool + 8 /\ #s_symbol_prec[0] = 0 /\ #s_symbol_assoc[0] = 0 /\ #s_symbol_pval[0] = 0
loop 12
inv i: nt < i <= nb + 2
inv tokens: forall p. 0 < p < nt -> #s_symbol_name[p] = #heap(s_first_symbol->name)[sb p] /\ #s_symbol_value[p] = #heap(s_first_symbol->value)[sb p] /\ #s_symbol_prec[p] = #heap(s_first_symbol->prec)[sb p] /\ #s_symbol_assoc[p] = #heap(s_first_symbol->assoc)[sb p] /\ #s_symbol_pval[p] = #heap(s_first_symbol->value)[sb p] /\ #s_symbol_pval[p] <= max_tok_pval
inv tables: forall p. nt < p < i -> #s_symbol_name[gx p] = #heap(s_first_symbol->name)[sb p] /\ #s_symbol_value[gx p] = #heap(s_first_symbol->value)[sb p] /\ #s_symbol_prec[gx p] = #heap(s_first_symbol->prec)[sb p] /\ #s_symbol_assoc[gx p] = #heap(s_first_symbol->assoc)[sb p] /\ #s_symbol_pval[gx p] = max_tok_pval + 2 + #heap(s_first_symbol->value)[sb p]
inv special: #s_symbol_value[0] = 0 /\ #s_symbol_name[0] = s_name_pool + 8 /\ #s_symbol_prec[0] = 0 /\ #s_symbol_assoc[0] = 0 /\ #s_symbol_pval[0] = 0
inv start: #s_symbol_value[nt] = -1 /\ #s_symbol_name[nt] = s_name_pool /\ #s_symbol_prec[nt] = 0 /\ #s_symbol_assoc[nt] = 0 /\ #s_symbol_pval[nt] = max_tok_pval + 1
exit: assert { forall k. 0 <= k < nb -> bk k = sb (ix k) /\ 0 < ix k < nb + 2 /\ ix k <> nt };

== pack_grammar files=byacc/reader.c,byacc/main.c props=C06
singleton byacc_t:s_
ghost let ref gk = 0 in
logic:
 (* the right side of rule i is at pitem[rs i .. rs i + ln i - 1], followed by a null *)
 function rs int : int
 function ln int : int
 constant lem : bool
 (* class and precedence of the symbol at each place; precedence and associativity a rule takes from the terminals among its first k symbols *)
 function cls int : int
 function pr int : int
 function asc int : int
 function pp (i k: int) : int
 function pa (i k: int) : int
 axiom pp_0: forall i. pp i 0 = 0 /\ pa i 0 = 0
 axiom pp_s: forall i k k1 [pp i k, pp i k1]. k >= 0 -> k1 = k + 1 -> (if cls (rs i + k) = 1 /\ (pp i k = 0 \/ not lem) then pp i k1 = pr (rs i + k) /\ pa i k1 = asc (rs i + k) else pp i k1 = pp i k /\ pa i k1 = pa i k)
requires rules: s_nrules >= 3 /\ rs 3 = 4 /\ (forall i. 3 <= i < s_nrules -> ln i >= 0 /\ rs i >= 4 /\ rs (i + 1) = rs i + ln i + 1)
requires order: forall i j. 3 <= i < j <= s_nrules -> rs i + ln i < rs j
requires items: (forall i k. 3 <= i < s_nrules -> rs i <= k < rs i + ln i -> #s_pitem[k] <> 0) /\ (forall i. 3 <= i < s_nrules -> #s_pitem[rs i + ln i] = 0)
requires symbols: (forall k. #s_pitem[k] <> 0 -> #heap(s_pitem[]->class)[#s_pitem[k]] = cls k /\ #heap(s_pitem[]->prec)[#s_pitem[k]] = pr k /\ #heap(s_pitem[]->assoc)[#s_pitem[k]] = asc k) /\ (lem <-> s_lemon_prec_flag <> 0)
requires room: s_rprec <> 0 /\ s_rassoc <> 0 /\ s_nrules <= #len(s_rprec)[s_rprec] /\ s_nrules <= #len(s_rassoc)[s_rassoc] /\ s_rprec + s_nrules <= #brk(s_rprec) /\ s_rassoc + s_nrules <= #brk(s_rassoc)
ensures left: forall i. 3 <= i < s_nrules -> #s_rlhs[i] = #heap(s_plhs[]->index)[#s_plhs[i]]
ensures sides: forall i. 3 <= i <= s_nrules -> #s_rrhs[i] = rs i
ensures right: forall i k. 3 <= i < s_nrules -> rs i <= k < rs i + ln i -> #s_ritem[k] = #heap(s_pitem[]->index)[#s_pitem[k]]
ensures ends: forall i. 3 <= i < s_nrules -> #s_ritem[rs i + ln i] = -i
ensures precedence: forall i. 3 <= i < s_nrules -> (if (old #heap(s_rprec[]))[off (old s_rprec) i] = -1 then #s_rprec[i] = pp i (ln i) /\ #s_rassoc[i] = pa i (ln i) else #s_rprec[i] = (old #heap(s_rprec[]))[off (old s_rprec) i] /\ #s_rassoc[i] = (old #heap(s_rassoc[]))[off (old s_rassoc) i])
ensures goal: #s_ritem[0] = -1 /\ #s_ritem[1] = #s_goal->index /\ #s_ritem[2] = 0 /\ #s_ritem[3] = -2 /\ #s_rlhs[2] = s_start_symbol /\ #s_rrhs[2] = 1
loop 1
inv i: 3 <= i <= s_nrules /\ j = rs i
inv left: forall r. 3 <= r < i -> #s_rlhs[r] = #heap(s_plhs[]->index)[#s_plhs[r]]
inv sides: forall r. 3 <= r < i -> #s_rrhs[r] = rs r
inv right: forall r k. 3 <= r < i -> rs r <= k < rs r + ln r -> #s_ritem[k] = #heap(s_pitem[]->index)[#s_pitem[k]]
inv ends: forall r. 3 <= r < i -> #s_ritem[rs r + ln r] = -r
inv prec: forall r. 3 <= r < i -> (if (old #heap(s_rprec[]))[off (old s_rprec) r] = -1 then #s_rprec[r] = pp r (ln r) /\ #s_rassoc[r] = pa r (ln r) else #s_rprec[r] = (old #heap(s_rprec[]))[off (old s_rprec) r] /\ #s_rassoc[r] = (old #heap(s_rassoc[]))[off (old s_rassoc) r])
inv rest: forall r. i <= r < s_nrules -> #s_rprec[r] = (old #heap(s_rprec[]))[off (old s_rprec) r] /\ #s_rassoc[r] = (old #heap(s_rassoc[]))[off (old s_rassoc) r]
inv goal: #s_ritem[0] = -1 /\ #s_ritem[1] = #s_goal->index /\ #s_ritem[2] = 0 /\ #s_ritem[3] = -2 /\ #s_rlhs[2] = s_start_symbol /\ #s_rrhs[2] = 1
loop 2
before: gk <- 0
inv j: 0 <= gk <= ln i /\ j = rs i + gk /\ prec2 = pp i gk /\ assoc = pa i gk
inv right: forall k. rs i <= k < j -> #s_ritem[k] = #heap(s_pitem[]->index)[#s_pitem[k]]
inv before: forall k. k < rs i -> #s_ritem[k] = (#heap(s_ritem[]) at L2)[off s_ritem k]
after_body: gk <- gk + 1

== expand_items files=byacc/reader.c,byacc/main.c props=C06
singleton byacc_t:s_
requires room: s_maxitems >= 0 /\ s_pitem > 0 /\ #len(s_pitem)[s_pitem] = s_maxitems /\ s_pitem + s_maxitems <= #brk(s_pitem)
ensures room: s_maxitems = old s_maxitems + 300 /\ s_pitem > 0 /\ #len(s_pitem)[s_pitem] = s_maxitems /\ s_pitem + s_maxitems <= #brk(s_pitem) /\ #brk(s_pitem) >= old #brk(s_pitem)
ensures kept: forall k. 0 <= k < old s_maxitems -> #s_pitem[k] = (old #heap(s_pitem[]))[off (old s_pitem) k]

== expand_rules files=byacc/reader.c,byacc/main.c props=C06
singleton byacc_t:s_
requires room: s_maxrules >= 0 /\ s_plhs > 0 /\ #len(s_plhs)[s_plhs] = s_maxrules /\ s_plhs + s_maxrules <= #brk(s_plhs) /\ s_rprec > 0 /\ #len(s_rprec)[s_rprec] = s_maxrules /\ s_rprec + s_maxrules <= #brk(s_rprec) /\
  s_rassoc > 0 /\ #len(s_rassoc)[s_rassoc] = s_maxrules /\ s_rassoc + s_maxrules <= #brk(s_rassoc) /\ s_rprec_bucket > 0 /\ #len(s_rprec_bucket)[s_rprec_bucket] = s_maxrules /\ s_rprec_bucket + s_maxrules <= #brk(s_rprec_bucket)
ensures room: s_maxrules = old s_maxrules + 100 /\ s_plhs > 0 /\ #len(s_plhs)[s_plhs] = s_maxrules /\ s_plhs + s_maxrules <= #brk(s_plhs) /\ s_rprec > 0 /\ #len(s_rprec)[s_rprec] = s_maxrules /\ s_rprec + s_maxrules <= #brk(s_rprec) /\
  s_rassoc > 0 /\ #len(s_rassoc)[s_rassoc] = s_maxrules /\ s_rassoc + s_maxrules <= #brk(s_rassoc) /\ s_rprec_bucket > 0 /\ #len(s_rprec_bucket)[s_rprec_bucket] = s_maxrules /\ s_rprec_bucket + s_maxrules <= #brk(s_rprec_bucket)
ensures kept: forall k. 0 <= k < old s_maxrules -> #s_plhs[k] = (old #heap(s_plhs[]))[off (old s_plhs) k] /\ #s_rprec[k] = (old #heap(s_rprec[]))[off (old s_rprec) k] /\ #s_rassoc[k] = (old #heap(s_rassoc[]))[off (old s_rassoc) k] /\ #s_rprec_bucket[k] = (old #heap(s_rprec_bucket[]))[off (old s_rprec_bucket) k]

== start_rule files=byacc/reader.c,byacc/main.c props=C06
singleton byacc_t:s_
requires room: s_nrules >= 3 /\ s_maxrules >= s_nrules /\ s_maxrules >= 0 /\ s_plhs > 0 /\ #len(s_plhs)[s_plhs] = s_maxrules /\ s_plhs + s_maxrules <= #brk(s_plhs) /\ s_rprec > 0 /\ #len(s_rprec)[s_rprec] = s_maxrules /\ s_rprec + s_maxrules <= #brk(s_rprec) /\
  s_rassoc > 0 /\ #len(s_rassoc)[s_rassoc] = s_maxrules /\ s_rassoc + s_maxrules <= #brk(s_rassoc) /\ s_rprec_bucket > 0 /\ #len(s_rprec_bucket)[s_rprec_bucket] = s_maxrules /\ s_rprec_bucket + s_maxrules <= #brk(s_rprec_bucket)
ensures opened: s_maxrules > s_nrules /\ s_nrules = old s_nrules /\ #s_plhs[s_nrules] = bp /\ #s_rprec[s_nrules] = -1 /\ #s_rassoc[s_nrules] = 0 /\ #s_rprec_bucket[s_nrules] = 0
ensures class: #bp->class = 2 /\ (forall x. x <> bp -> #heap(bp->class)[x] = (old #heap(bp->class))[x])
ensures others: forall k. 0 <= k < s_nrules -> #s_plhs[k] = (old #heap(s_plhs[]))[off (old s_plhs) k] /\ #s_rprec[k] = (old #heap(s_rprec[]))[off (old s_rprec) k] /\ #s_rassoc[k] = (old #heap(s_rassoc[]))[off (old s_rassoc) k] /\ #s_rprec_bucket[k] = (old #heap(s_rprec_bucket[]))[off (old s_rprec_bucket) k]
ensures room: s_maxrules >= 0 /\ s_plhs > 0 /\ #len(s_plhs)[s_plhs] = s_maxrules /\ s_plhs + s_maxrules <= #brk(s_plhs) /\ s_rprec > 0 /\ #len(s_rprec)[s_rprec] = s_maxrules /\ s_rprec + s_maxrules <= #brk(s_rprec) /\
  s_rassoc > 0 /\ #len(s_rassoc)[s_rassoc] = s_maxrules /\ s_rassoc + s_maxrules <= #brk(s_rassoc) /\ s_rprec_bucket > 0 /\ #len(s_rprec_bucket)[s_rprec_bucket] = s_maxrules /\ s_rprec_bucket + s_maxrules <= #brk(s_rprec_bucket)

== end_rule files=byacc/reader.c,byacc/main.c,byacc/error.c props=C06
singleton byacc_t:s_
requires room: s_nitems >= 4 /\ s_maxitems >= s_nitems /\ s_pitem > 0 /\ #len(s_pitem)[s_pitem] = s_maxitems /\ s_pitem + s_maxitems <= #brk(s_pitem)
ensures closed: s_nrules = old s_nrules + 1 /\ s_nitems = old s_nitems + 1 /\ s_last_was_action = 0 /\ s_maxitems >= s_nitems /\ #s_pitem[s_nitems - 1] = 0
ensures kept: forall k. 0 <= k < old s_nitems -> #s_pitem[k] = (old #heap(s_pitem[]))[off (old s_pitem) k]
ensures room: s_pitem > 0 /\ #len(s_pitem)[s_pitem] = s_maxitems /\ s_pitem + s_maxitems <= #brk(s_pitem)
loop 1
inv i: i <= s_nitems - 1
var: i + 1

== insert_empty_rule files=byacc/reader.c,byacc/symtab.c,byacc/main.c props=C06
singleton byacc_t:s_
opt chars
opt callee make_bucket=make_bucket@any
logic:
 constant st : int
requires open-rule: 4 <= st <= s_nitems /\ #s_pitem[st - 1] = 0 /\ (forall k. st <= k < s_nitems -> #s_pitem[k] <> 0)
requires items: s_maxitems >= s_nitems /\ s_pitem > 0 /\ #len(s_pitem)[s_pitem] = s_maxitems /\ s_pitem + s_maxitems <= #brk(s_pitem)
requires rules: s_nrules >= 3 /\ s_maxrules > s_nrules /\ s_plhs > 0 /\ #len(s_plhs)[s_plhs] = s_maxrules /\ s_plhs + s_maxrules <= #brk(s_plhs) /\ s_rprec > 0 /\ #len(s_rprec)[s_rprec] = s_maxrules /\ s_rprec + s_maxrules <= #brk(s_rprec) /\
  s_rassoc > 0 /\ #len(s_rassoc)[s_rassoc] = s_maxrules /\ s_rassoc + s_maxrules <= #brk(s_rassoc) /\ s_rprec_bucket > 0 /\ #len(s_rprec_bucket)[s_rprec_bucket] = s_maxrules /\ s_rprec_bucket + s_maxrules <= #brk(s_rprec_bucket)
requires cache: s_cache > 0 /\ s_cache_size >= 256 
requires brk: #brk(bp) > 0 /\ #brk(bp->name) > 0
ensures counts: s_nitems = old s_nitems + 2 /\ s_nrules = old s_nrules + 1 /\ s_gensym = old s_gensym + 1 /\ s_maxitems >= s_nitems /\ s_maxrules > s_nrules
ensures earlier: forall k. 0 <= k < st -> #s_pitem[k] = (old #heap(s_pitem[]))[off (old s_pitem) k]
ensures empty: #s_pitem[st] = 0
ensures shifted: forall k. st <= k < old s_nitems -> #s_pitem[k + 1] = (old #heap(s_pitem[]))[off (old s_pitem) k]
ensures marker: #s_pitem[s_nitems - 1] = s_last_symbol /\ #s_plhs[s_nrules - 1] = s_last_symbol /\ s_last_symbol <> 0 /\ #s_last_symbol->class = 3
ensures outer: #s_plhs[s_nrules] = (old #heap(s_plhs[]))[off (old s_plhs) (old s_nrules)] /\ #s_rprec[s_nrules] = (old #heap(s_rprec[]))[off (old s_rprec) (old s_nrules)] /\ #s_rassoc[s_nrules] = (old #heap(s_rassoc[]))[off (old s_rassoc) (old s_nrules)] /\ #s_rprec_bucket[s_nrules] = (old #heap(s_rprec_bucket[]))[off (old s_rprec_bucket) (old s_nrules)]
ensures inner: #s_rprec[s_nrules - 1] = 0 /\ #s_rassoc[s_nrules - 1] = 0 /\ #s_rprec_bucket[s_nrules - 1] = 0
ensures others: forall k. 0 <= k < old s_nrules -> #s_plhs[k] = (old #heap(s_plhs[]))[off (old s_plhs) k] /\ #s_rprec[k] = (old #heap(s_rprec[]))[off (old s_rprec) k] /\ #s_rassoc[k] = (old #heap(s_rassoc[]))[off (old s_rassoc) k] /\ #s_rprec_bucket[k] = (old #heap(s_rprec_bucket[]))[off (old s_rprec_bucket) k]
loop 1
inv p: st <= bpp - s_pitem <= s_nitems - 2
inv shifted: forall k. bpp - s_pitem < k <= s_nitems - 2 -> #s_pitem[k] = (#heap(s_pitem[]) at L1)[off s_pitem (k - 1)]
inv rest: forall k. k <= bpp - s_pitem \/ k = s_nitems - 1 -> #s_pitem[k] = (#heap(s_pitem[]) at L1)[off s_pitem k]
after: assert { off s_pitem (bpp - s_pitem) = bpp /\ off s_pitem (bpp - s_pitem - 1) = bpp - 1 };
 assert { bpp - s_pitem = st };
