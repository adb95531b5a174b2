== transitive_closure files=byacc/warshall.c props=C01
ghost let ghost ref gi = 0 in
ghost let ghost ref gj = 0 in
ghost let ghost ref ws = 0 in
use lib.BitRel
requires n: n >= 0
ensures contains: forall a c. 0 <= a < n -> 0 <= c < 64 * div (n + 63) 64 -> (e (old #heap(u_R[])) u_R (div (n + 63) 64) a c) -> e #heap(u_R[]) u_R (div (n + 63) 64) a c
ensures transitive: forall a b c. 0 <= a < n -> 0 <= b < n -> 0 <= c < 64 * div (n + 63) 64 ->
   e #heap(u_R[]) u_R (div (n + 63) 64) a b -> e #heap(u_R[]) u_R (div (n + 63) 64) b c -> e #heap(u_R[]) u_R (div (n + 63) 64) a c
ensures least: xrel_trans -> (forall a c. 0 <= a < n -> 0 <= c < 64 * div (n + 63) 64 -> e (old #heap(u_R[])) u_R (div (n + 63) 64) a c -> xrel a c) ->
   forall a c. 0 <= a < n -> 0 <= c < 64 * div (n + 63) 64 -> e #heap(u_R[]) u_R (div (n + 63) 64) a c -> xrel a c
ensures frame: forall x. x < u_R \/ x >= u_R + cmul n (div (n + 63) 64) -> #heap(u_R[])[x] = (old #heap(u_R[]))[x]
loop 1
inv pos: 0 <= gi <= n /\ rowi = u_R + cmul gi rowsize /\ cword = u_R + div gi 64 /\ i = mod gi 64
inv size: rowsize = div (n + 63) 64 /\ relend = u_R + cmul n rowsize
inv frame: forall x. x < u_R \/ x >= relend -> #heap(u_R[])[x] = (old #heap(u_R[]))[x]
inv contains: forall a c. 0 <= a < n -> 0 <= c < 64 * rowsize -> (e (old #heap(u_R[])) u_R rowsize a c) -> e #heap(u_R[]) u_R rowsize a c
inv transitive: forall a b c. 0 <= a < n -> 0 <= b < gi -> 0 <= c < 64 * rowsize ->
   e #heap(u_R[]) u_R rowsize a b -> e #heap(u_R[]) u_R rowsize b c -> e #heap(u_R[]) u_R rowsize a c
inv least: xrel_trans -> (forall a c. 0 <= a < n -> 0 <= c < 64 * rowsize -> e (old #heap(u_R[])) u_R rowsize a c -> xrel a c) ->
   forall a c. 0 <= a < n -> 0 <= c < 64 * rowsize -> e #heap(u_R[]) u_R rowsize a c -> xrel a c
var: n - gi
before: gi <- 0
body: gj <- 0
after_body: gi <- gi + 1
loop 2
inv pos: 0 <= gj <= n /\ rowj = u_R + cmul gj rowsize /\ ccol = u_R + cmul gj rowsize + div gi 64
inv frame: forall x. x < u_R \/ x >= relend -> #heap(u_R[])[x] = (#heap(u_R[]) at L2)[x]
inv done: forall a c. 0 <= a < gj -> 0 <= c < 64 * rowsize ->
  (e #heap(u_R[]) u_R rowsize a c <-> e (#heap(u_R[]) at L2) u_R rowsize a c \/
     (e (#heap(u_R[]) at L2) u_R rowsize a gi /\ e (#heap(u_R[]) at L2) u_R rowsize gi c))
inv rest: forall a c. gj <= a < n -> 0 <= c < 64 * rowsize -> (e #heap(u_R[]) u_R rowsize a c <-> e (#heap(u_R[]) at L2) u_R rowsize a c)
inv pivot: forall c. 0 <= c < 64 * rowsize -> (e #heap(u_R[]) u_R rowsize gi c <-> e (#heap(u_R[]) at L2) u_R rowsize gi c)
var: n - gj
after: assert { forall a c. 0 <= a < n -> 0 <= c < 64 * rowsize ->
  (e #heap(u_R[]) u_R rowsize a c <-> e (#heap(u_R[]) at L2) u_R rowsize a c \/
     (e (#heap(u_R[]) at L2) u_R rowsize a gi /\ e (#heap(u_R[]) at L2) u_R rowsize gi c)) }
after_body: gj <- gj + 1
loop 3
before: ws <- rowj
inv pos: ws <= rowj <= rend /\ rend = ws + rowsize /\ rp = rowi + (rowj - ws) /\ ws = u_R + cmul gj rowsize
inv done: forall w. 0 <= w < rowj - ws -> #heap(u_R[])[off ws w] = wor (#heap(u_R[]) at L3)[off ws w] (#heap(u_R[]) at L3)[off rowi w]
inv frame: forall x. x < ws \/ x >= rowj -> #heap(u_R[])[x] = (#heap(u_R[]) at L3)[x]
var: rend - rowj

== reflexive_transitive_closure files=byacc/warshall.c props=C01
use lib.BitRel
ghost let ghost ref gi = 0 in
requires n: n >= 0
ensures contains: forall a c. 0 <= a < n -> 0 <= c < 64 * div (n + 63) 64 -> (e (old #heap(u_R[])) u_R (div (n + 63) 64) a c) -> e #heap(u_R[]) u_R (div (n + 63) 64) a c
ensures reflexive: forall a. 0 <= a < n -> e #heap(u_R[]) u_R (div (n + 63) 64) a a
ensures transitive: forall a b c. 0 <= a < n -> 0 <= b < n -> 0 <= c < 64 * div (n + 63) 64 ->
   e #heap(u_R[]) u_R (div (n + 63) 64) a b -> e #heap(u_R[]) u_R (div (n + 63) 64) b c -> e #heap(u_R[]) u_R (div (n + 63) 64) a c
ensures least: xrel_trans -> (forall a. 0 <= a < n -> xrel a a) -> (forall a c. 0 <= a < n -> 0 <= c < 64 * div (n + 63) 64 -> e (old #heap(u_R[])) u_R (div (n + 63) 64) a c -> xrel a c) ->
   forall a c. 0 <= a < n -> 0 <= c < 64 * div (n + 63) 64 -> e #heap(u_R[]) u_R (div (n + 63) 64) a c -> xrel a c
ensures frame: forall x. x < u_R \/ x >= u_R + cmul n (div (n + 63) 64) -> #heap(u_R[])[x] = (old #heap(u_R[]))[x]
loop 1
inv pos: 0 <= gi <= n /\ rp = u_R + cmul gi rowsize + div gi 64 /\ i = mod gi 64
inv size: rowsize = div (n + 63) 64 /\ relend = u_R + cmul n rowsize
inv frame: forall x. x < u_R \/ x >= relend -> #heap(u_R[])[x] = (old #heap(u_R[]))[x]
inv diag: forall a c. 0 <= a < n -> 0 <= c < 64 * rowsize ->
   (e #heap(u_R[]) u_R rowsize a c <-> (a < gi /\ a = c) \/ e (#heap(u_R[]) at L1) u_R rowsize a c)
var: n - gi
body: assert { rp = off (u_R + cmul gi rowsize) (div gi 64) }
after_body: gi <- gi + 1

== set_EFF files=byacc/closure.c,byacc/warshall.c props=C01
singleton byacc_t:s_
use lib.BitRel
use lib.Grammar
ghost let ghost ref gk = 0 in
requires sizes: 0 < s_ntokens /\ s_start_symbol = s_ntokens /\ s_nsyms = s_ntokens + s_nvars /\ s_nvars >= 0
requires symbols: forall x. #s_ritem[x] < s_nsyms
requires brk: #brk(s_fs1_EFF) > 0
requires rules: forall i. s_ntokens <= i < s_nsyms -> rules_of #heap(s_derives[][]) #s_derives[i] #heap(s_rlhs[]) s_rlhs s_nrules i
ensures fresh: s_fs1_EFF >= old #brk(s_fs1_EFF)
ensures edges: forall i r. 0 <= i < s_nvars -> 1 <= r < s_nrules -> #s_rlhs[r] = i + s_ntokens -> #s_ritem[#s_rrhs[r]] >= s_ntokens ->
   e #heap(s_fs1_EFF[]) s_fs1_EFF (div (s_nvars + 63) 64) i (#s_ritem[#s_rrhs[r]] - s_ntokens)
ensures reflexive: forall a. 0 <= a < s_nvars -> e #heap(s_fs1_EFF[]) s_fs1_EFF (div (s_nvars + 63) 64) a a
ensures transitive: forall a b c. 0 <= a < s_nvars -> 0 <= b < s_nvars -> 0 <= c < s_nvars ->
   e #heap(s_fs1_EFF[]) s_fs1_EFF (div (s_nvars + 63) 64) a b -> e #heap(s_fs1_EFF[]) s_fs1_EFF (div (s_nvars + 63) 64) b c -> e #heap(s_fs1_EFF[]) s_fs1_EFF (div (s_nvars + 63) 64) a c
ensures least: xrel_trans -> (forall a. 0 <= a < s_nvars -> xrel a a) ->
   (forall r. 1 <= r < s_nrules -> s_ntokens <= #s_rlhs[r] < s_nsyms -> #s_ritem[#s_rrhs[r]] >= s_ntokens -> xrel (#s_rlhs[r] - s_ntokens) (#s_ritem[#s_rrhs[r]] - s_ntokens)) ->
   forall a c. 0 <= a < s_nvars -> 0 <= c < s_nvars -> e #heap(s_fs1_EFF[]) s_fs1_EFF (div (s_nvars + 63) 64) a c -> xrel a c
ensures frame: forall x. x < s_fs1_EFF -> #heap(s_fs1_EFF[])[x] = (old #heap(s_fs1_EFF[]))[x]
loop 1
inv range: s_ntokens <= i <= s_nsyms /\ rowsize = div (s_nvars + 63) 64 /\ row = s_fs1_EFF + cmul (i - s_ntokens) rowsize
inv fresh: s_fs1_EFF >= old #brk(s_fs1_EFF)
inv edges: forall r. 1 <= r < s_nrules -> s_ntokens <= #s_rlhs[r] < i -> #s_ritem[#s_rrhs[r]] >= s_ntokens ->
   e #heap(s_fs1_EFF[]) s_fs1_EFF rowsize (#s_rlhs[r] - s_ntokens) (#s_ritem[#s_rrhs[r]] - s_ntokens)
inv later: forall a c. i - s_ntokens <= a < s_nvars -> 0 <= c < 64 * rowsize -> not (e #heap(s_fs1_EFF[]) s_fs1_EFF rowsize a c)
inv only: forall a c. 0 <= a < i - s_ntokens -> 0 <= c < 64 * rowsize -> e #heap(s_fs1_EFF[]) s_fs1_EFF rowsize a c ->
   exists r. 1 <= r < s_nrules /\ #s_rlhs[r] = a + s_ntokens /\ #s_ritem[#s_rrhs[r]] = c + s_ntokens
inv frame: forall x. x < s_fs1_EFF -> #heap(s_fs1_EFF[])[x] = (old #heap(s_fs1_EFF[]))[x]
var: s_nsyms - i
loop 2
before: gk <- 0
inv cur: sp = off #s_derives[i] gk /\ 0 <= gk /\ rule = #sp[]
inv seen: forall k. 0 <= k < gk -> #s_derives[i][k] > 0
inv edges: forall k. 0 <= k < gk -> #s_ritem[#s_rrhs[#s_derives[i][k]]] >= s_ntokens ->
   e #heap(s_fs1_EFF[]) s_fs1_EFF rowsize (i - s_ntokens) (#s_ritem[#s_rrhs[#s_derives[i][k]]] - s_ntokens)
inv only: forall c. 0 <= c < 64 * rowsize -> e #heap(s_fs1_EFF[]) s_fs1_EFF rowsize (i - s_ntokens) c ->
   exists r. 1 <= r < s_nrules /\ #s_rlhs[r] = i /\ #s_ritem[#s_rrhs[r]] = c + s_ntokens
inv others: forall a c. 0 <= a < s_nvars -> a <> i - s_ntokens -> 0 <= c < 64 * rowsize ->
   (e #heap(s_fs1_EFF[]) s_fs1_EFF rowsize a c <-> e (#heap(s_fs1_EFF[]) at L2) s_fs1_EFF rowsize a c)
inv frame: forall x. x < s_fs1_EFF -> #heap(s_fs1_EFF[])[x] = (old #heap(s_fs1_EFF[]))[x]
after_body: gk <- gk + 1
