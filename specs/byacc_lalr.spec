== traverse files=byacc/lalr.c props=C02
singleton byacc_t:s_
use lib.BitRel
use dig.Dig
opt ghost_writes gpos
ghost let ref gk = 0 in
requires state: 0 <= i < s_fs3_ngotos /\ #s_fs3_INDEX[i] = 0 /\ s_fs3_infinity = s_fs3_ngotos + 2 /\ wf #heap(s_fs3_INDEX[]) s_fs3_INDEX #heap(s_fs3_VERTICES[]) s_fs3_VERTICES gpos s_fs3_top s_fs3_ngotos
requires bit: s_fs3_tokensetsize >= 0 /\ 0 <= gb < 64 * s_fs3_tokensetsize
requires relation: forall v. 0 <= v < s_fs3_ngotos -> len v >= 0 /\ (#s_fs3_R[v] = 0 -> len v = 0) /\ (#s_fs3_R[v] <> 0 -> #heap(s_fs3_R[][])[off #s_fs3_R[v] (len v)] < 0) /\ (forall k. 0 <= k < len v -> 0 <= #heap(s_fs3_R[][])[off #s_fs3_R[v] k] < s_fs3_ngotos)
requires closed: forall v k. 0 <= v < s_fs3_ngotos -> 0 <= k < len v -> lv #heap(s_fs3_R[][])[off #s_fs3_R[v] k] -> lv v
requires sound: forall v. 0 <= v < s_fs3_ngotos -> e #heap(s_fs3_F[]) s_fs3_F s_fs3_tokensetsize v gb -> lv v
requires links: forall p. 1 <= p <= s_fs3_top -> lv #s_fs3_VERTICES[#s_fs3_INDEX[#s_fs3_VERTICES[p]]] -> lv #s_fs3_VERTICES[p]
requires reach: forall p. 1 <= p <= s_fs3_top -> lv i -> lv #s_fs3_VERTICES[p]
requires base: forall v. 0 <= v < s_fs3_ngotos -> #s_fs3_INDEX[v] = 0 -> f0 v -> e #heap(s_fs3_F[]) s_fs3_F s_fs3_tokensetsize v gb
ensures state: wf #heap(s_fs3_INDEX[]) s_fs3_INDEX #heap(s_fs3_VERTICES[]) s_fs3_VERTICES gpos s_fs3_top s_fs3_ngotos
ensures visited: #s_fs3_INDEX[i] <> 0 /\ s_fs3_top >= old s_fs3_top
ensures stack: forall p. 1 <= p <= old s_fs3_top -> #s_fs3_VERTICES[p] = (old #heap(s_fs3_VERTICES[]))[off s_fs3_VERTICES p]
ensures frame: forall v. 0 <= v < s_fs3_ngotos -> (old #heap(s_fs3_INDEX[]))[off s_fs3_INDEX v] <> 0 -> #s_fs3_INDEX[v] = (old #heap(s_fs3_INDEX[]))[off s_fs3_INDEX v] /\ gpos[v] = (old gpos)[v] /\ (e #heap(s_fs3_F[]) s_fs3_F s_fs3_tokensetsize v gb <-> e (old #heap(s_fs3_F[])) s_fs3_F s_fs3_tokensetsize v gb)
ensures white: forall v. 0 <= v < s_fs3_ngotos -> #s_fs3_INDEX[v] = 0 -> (old #heap(s_fs3_INDEX[]))[off s_fs3_INDEX v] = 0 /\ (e #heap(s_fs3_F[]) s_fs3_F s_fs3_tokensetsize v gb <-> e (old #heap(s_fs3_F[])) s_fs3_F s_fs3_tokensetsize v gb)
ensures popped: #s_fs3_INDEX[i] = s_fs3_infinity -> s_fs3_top = old s_fs3_top
ensures pending: #s_fs3_INDEX[i] <> s_fs3_infinity -> 1 <= #s_fs3_INDEX[i] <= old s_fs3_top /\ gpos[i] = old s_fs3_top + 1
ensures above: forall q. old s_fs3_top < q <= s_fs3_top -> #s_fs3_INDEX[i] <> s_fs3_infinity /\ #s_fs3_INDEX[i] <= #s_fs3_INDEX[#s_fs3_VERTICES[q]] /\ (e #heap(s_fs3_F[]) s_fs3_F s_fs3_tokensetsize #s_fs3_VERTICES[q] gb -> e #heap(s_fs3_F[]) s_fs3_F s_fs3_tokensetsize i gb) /\ (lv #s_fs3_VERTICES[#s_fs3_INDEX[i]] -> lv #s_fs3_VERTICES[q])
ensures links: forall p. 1 <= p <= s_fs3_top -> lv #s_fs3_VERTICES[#s_fs3_INDEX[#s_fs3_VERTICES[p]]] -> lv #s_fs3_VERTICES[p]
ensures sound: forall v. 0 <= v < s_fs3_ngotos -> e #heap(s_fs3_F[]) s_fs3_F s_fs3_tokensetsize v gb -> lv v
ensures complete: forall v. 0 <= v < s_fs3_ngotos -> (old #heap(s_fs3_INDEX[]))[off s_fs3_INDEX v] = 0 -> #s_fs3_INDEX[v] <> 0 -> black #heap(s_fs3_F[]) s_fs3_F s_fs3_tokensetsize #heap(s_fs3_INDEX[]) s_fs3_INDEX gpos #heap(s_fs3_R[]) s_fs3_R #heap(s_fs3_R[][]) s_fs3_ngotos v
entry: room #heap(s_fs3_INDEX[]) s_fs3_INDEX #heap(s_fs3_VERTICES[]) s_fs3_VERTICES gpos s_fs3_top s_fs3_ngotos i;
 gpos <- mset gpos i (s_fs3_top + 1);
loop 1
before: gk <- 0
inv pos: 0 <= gk <= len i /\ rp = off #s_fs3_R[i] gk /\ base = s_fs3_F + cmul i s_fs3_tokensetsize /\ fp3 = base + s_fs3_tokensetsize /\ height = old s_fs3_top + 1
inv state: wf #heap(s_fs3_INDEX[]) s_fs3_INDEX #heap(s_fs3_VERTICES[]) s_fs3_VERTICES gpos s_fs3_top s_fs3_ngotos
inv cur: s_fs3_top >= height /\ #s_fs3_VERTICES[height] = i /\ gpos[i] = height /\ 1 <= #s_fs3_INDEX[i] <= height
inv stack: forall p. 1 <= p <= old s_fs3_top -> #s_fs3_VERTICES[p] = (old #heap(s_fs3_VERTICES[]))[off s_fs3_VERTICES p]
inv frame: forall v. 0 <= v < s_fs3_ngotos -> (old #heap(s_fs3_INDEX[]))[off s_fs3_INDEX v] <> 0 -> #s_fs3_INDEX[v] = (old #heap(s_fs3_INDEX[]))[off s_fs3_INDEX v] /\ gpos[v] = (old gpos)[v] /\ (e #heap(s_fs3_F[]) s_fs3_F s_fs3_tokensetsize v gb <-> e (old #heap(s_fs3_F[])) s_fs3_F s_fs3_tokensetsize v gb)
inv white: forall v. 0 <= v < s_fs3_ngotos -> #s_fs3_INDEX[v] = 0 -> (old #heap(s_fs3_INDEX[]))[off s_fs3_INDEX v] = 0 /\ (e #heap(s_fs3_F[]) s_fs3_F s_fs3_tokensetsize v gb <-> e (old #heap(s_fs3_F[])) s_fs3_F s_fs3_tokensetsize v gb)
inv links: forall p. 1 <= p <= s_fs3_top -> lv #s_fs3_VERTICES[#s_fs3_INDEX[#s_fs3_VERTICES[p]]] -> lv #s_fs3_VERTICES[p]
inv above: forall q. height < q <= s_fs3_top -> #s_fs3_INDEX[i] <= #s_fs3_INDEX[#s_fs3_VERTICES[q]] /\ (e #heap(s_fs3_F[]) s_fs3_F s_fs3_tokensetsize #s_fs3_VERTICES[q] gb -> e #heap(s_fs3_F[]) s_fs3_F s_fs3_tokensetsize i gb) /\ (lv i -> lv #s_fs3_VERTICES[q])
inv sound: forall v. 0 <= v < s_fs3_ngotos -> e #heap(s_fs3_F[]) s_fs3_F s_fs3_tokensetsize v gb -> lv v
inv complete: forall v. 0 <= v < s_fs3_ngotos -> (old #heap(s_fs3_INDEX[]))[off s_fs3_INDEX v] = 0 -> v <> i -> #s_fs3_INDEX[v] <> 0 -> black #heap(s_fs3_F[]) s_fs3_F s_fs3_tokensetsize #heap(s_fs3_INDEX[]) s_fs3_INDEX gpos #heap(s_fs3_R[]) s_fs3_R #heap(s_fs3_R[][]) s_fs3_ngotos v
inv edges: (f0 i -> e #heap(s_fs3_F[]) s_fs3_F s_fs3_tokensetsize i gb) /\ forall k. 0 <= k < gk -> let y = #heap(s_fs3_R[][])[off #s_fs3_R[i] k] in #s_fs3_INDEX[y] <> 0 /\ (if #s_fs3_INDEX[y] = s_fs3_ngotos + 2 then (e #heap(s_fs3_F[]) s_fs3_F s_fs3_tokensetsize y gb -> e #heap(s_fs3_F[]) s_fs3_F s_fs3_tokensetsize i gb) else #s_fs3_INDEX[i] <= gpos[y])
var: len i - gk
body: assert { j = #heap(s_fs3_R[][])[off #s_fs3_R[i] gk] /\ gk < len i };
after_body: gk <- gk + 1
loop 2
inv pos: base <= fp1 <= fp3 /\ fp2 = s_fs3_F + cmul j s_fs3_tokensetsize + (fp1 - base)
inv done: forall w. 0 <= w < fp1 - base -> #heap(s_fs3_F[])[off base w] = wor (#heap(s_fs3_F[]) at L2)[off base w] (#heap(s_fs3_F[]) at L2)[off (s_fs3_F + cmul j s_fs3_tokensetsize) w]
inv frame: forall x. x < base \/ x >= fp1 -> #heap(s_fs3_F[])[x] = (#heap(s_fs3_F[]) at L2)[x]
var: fp3 - fp1
after: assert { forall v. 0 <= v < s_fs3_ngotos -> v <> i -> (e #heap(s_fs3_F[]) s_fs3_F s_fs3_tokensetsize v gb <-> e (#heap(s_fs3_F[]) at L2) s_fs3_F s_fs3_tokensetsize v gb) };
 assert { e #heap(s_fs3_F[]) s_fs3_F s_fs3_tokensetsize i gb <-> e (#heap(s_fs3_F[]) at L2) s_fs3_F s_fs3_tokensetsize i gb \/ e (#heap(s_fs3_F[]) at L2) s_fs3_F s_fs3_tokensetsize j gb };
loop 3
inv pos: height <= s_fs3_top <= (s_fs3_top at L3)
inv popped: forall q. s_fs3_top < q <= (s_fs3_top at L3) -> #s_fs3_INDEX[#s_fs3_VERTICES[q]] = s_fs3_ngotos + 2 /\ (e #heap(s_fs3_F[]) s_fs3_F s_fs3_tokensetsize #s_fs3_VERTICES[q] gb <-> e (#heap(s_fs3_F[]) at L3) s_fs3_F s_fs3_tokensetsize i gb)
inv rest: forall v. 0 <= v < s_fs3_ngotos -> not (s_fs3_top < gpos[v] <= (s_fs3_top at L3) /\ #s_fs3_VERTICES[gpos[v]] = v) -> #s_fs3_INDEX[v] = (#heap(s_fs3_INDEX[]) at L3)[off s_fs3_INDEX v] /\ (e #heap(s_fs3_F[]) s_fs3_F s_fs3_tokensetsize v gb <-> e (#heap(s_fs3_F[]) at L3) s_fs3_F s_fs3_tokensetsize v gb)
var: s_fs3_top
before: assert { s_fs3_top >= height /\ #s_fs3_VERTICES[height] = i /\ gpos[i] = height /\ 1 <= #s_fs3_INDEX[i] <= height /\ lv #s_fs3_VERTICES[#s_fs3_INDEX[i]] -> lv i };
 assert { forall q. height < q <= s_fs3_top -> #s_fs3_INDEX[i] <= #s_fs3_INDEX[#s_fs3_VERTICES[q]] /\ (e #heap(s_fs3_F[]) s_fs3_F s_fs3_tokensetsize #s_fs3_VERTICES[q] gb -> e #heap(s_fs3_F[]) s_fs3_F s_fs3_tokensetsize i gb) /\ (lv i -> lv #s_fs3_VERTICES[q]) };
 assert { forall v. 0 <= v < s_fs3_ngotos -> (old #heap(s_fs3_INDEX[]))[off s_fs3_INDEX v] = 0 -> v <> i -> #s_fs3_INDEX[v] <> 0 -> black #heap(s_fs3_F[]) s_fs3_F s_fs3_tokensetsize #heap(s_fs3_INDEX[]) s_fs3_INDEX gpos #heap(s_fs3_R[]) s_fs3_R #heap(s_fs3_R[][]) s_fs3_ngotos v };
 assert { (f0 i -> e #heap(s_fs3_F[]) s_fs3_F s_fs3_tokensetsize i gb) /\ forall k. 0 <= k < len i -> let y = #heap(s_fs3_R[][])[off #s_fs3_R[i] k] in #s_fs3_INDEX[y] <> 0 /\ (if #s_fs3_INDEX[y] = s_fs3_ngotos + 2 then (e #heap(s_fs3_F[]) s_fs3_F s_fs3_tokensetsize y gb -> e #heap(s_fs3_F[]) s_fs3_F s_fs3_tokensetsize i gb) else #s_fs3_INDEX[i] <= gpos[y]) };
after: assert { s_fs3_top = height - 1 };
 assert { forall q. height <= q <= (s_fs3_top at L3) -> #s_fs3_INDEX[#s_fs3_VERTICES[q]] = s_fs3_ngotos + 2 /\ (e #heap(s_fs3_F[]) s_fs3_F s_fs3_tokensetsize #s_fs3_VERTICES[q] gb <-> e (#heap(s_fs3_F[]) at L3) s_fs3_F s_fs3_tokensetsize i gb) };
 assert { forall v. 0 <= v < s_fs3_ngotos -> not (height <= gpos[v] <= (s_fs3_top at L3) /\ #s_fs3_VERTICES[gpos[v]] = v) -> #s_fs3_INDEX[v] = (#heap(s_fs3_INDEX[]) at L3)[off s_fs3_INDEX v] /\ (e #heap(s_fs3_F[]) s_fs3_F s_fs3_tokensetsize v gb <-> e (#heap(s_fs3_F[]) at L3) s_fs3_F s_fs3_tokensetsize v gb) };
loop 4
inv pos: base <= fp1 <= fp3 /\ fp2 = s_fs3_F + cmul j s_fs3_tokensetsize + (fp1 - base)
inv done: forall w. 0 <= w < fp1 - base -> #heap(s_fs3_F[])[off (s_fs3_F + cmul j s_fs3_tokensetsize) w] = (#heap(s_fs3_F[]) at L4)[off base w]
inv frame: forall x. x < s_fs3_F + cmul j s_fs3_tokensetsize \/ x >= fp2 -> #heap(s_fs3_F[])[x] = (#heap(s_fs3_F[]) at L4)[x]
var: fp3 - fp1
after: assert { forall v. 0 <= v < s_fs3_ngotos -> v <> j -> (e #heap(s_fs3_F[]) s_fs3_F s_fs3_tokensetsize v gb <-> e (#heap(s_fs3_F[]) at L4) s_fs3_F s_fs3_tokensetsize v gb) };
 assert { e #heap(s_fs3_F[]) s_fs3_F s_fs3_tokensetsize j gb <-> e (#heap(s_fs3_F[]) at L4) s_fs3_F s_fs3_tokensetsize i gb };

== digraph files=byacc/lalr.c,byacc/main.c props=C02
singleton byacc_t:s_
use lib.BitRel
use dig.Dig
opt ghost_writes gpos
requires bit: s_fs3_tokensetsize >= 0 /\ 0 <= gb < 64 * s_fs3_tokensetsize /\ s_fs3_ngotos >= 0 /\ #brk(s_fs3_INDEX) > 0 /\ #brk(s_fs3_VERTICES) > 0
requires relation: forall v. 0 <= v < s_fs3_ngotos -> len v >= 0 /\ (#relation[v] = 0 -> len v = 0) /\ (#relation[v] <> 0 -> #heap(relation[][])[off #relation[v] (len v)] < 0) /\ (forall k. 0 <= k < len v -> 0 <= #heap(relation[][])[off #relation[v] k] < s_fs3_ngotos)
requires closed: forall v k. 0 <= v < s_fs3_ngotos -> 0 <= k < len v -> lv #heap(relation[][])[off #relation[v] k] -> lv v
requires sound: forall v. 0 <= v < s_fs3_ngotos -> e #heap(s_fs3_F[]) s_fs3_F s_fs3_tokensetsize v gb -> lv v
requires base: forall v. 0 <= v < s_fs3_ngotos -> f0 v -> e #heap(s_fs3_F[]) s_fs3_F s_fs3_tokensetsize v gb
ensures contains: forall v. 0 <= v < s_fs3_ngotos -> f0 v -> e #heap(s_fs3_F[]) s_fs3_F s_fs3_tokensetsize v gb
ensures closed: forall v k. 0 <= v < s_fs3_ngotos -> 0 <= k < len v -> e #heap(s_fs3_F[]) s_fs3_F s_fs3_tokensetsize #heap(relation[][])[off #relation[v] k] gb -> e #heap(s_fs3_F[]) s_fs3_F s_fs3_tokensetsize v gb
ensures least: forall v. 0 <= v < s_fs3_ngotos -> e #heap(s_fs3_F[]) s_fs3_F s_fs3_tokensetsize v gb -> lv v
loop 1
inv zero: 0 <= i /\ forall v. 0 <= v < s_fs3_ngotos -> #s_fs3_INDEX[v] = 0
var: s_fs3_ngotos - i
loop 2
inv i: 0 <= i <= s_fs3_ngotos \/ i = 0
inv wf: wf #heap(s_fs3_INDEX[]) s_fs3_INDEX #heap(s_fs3_VERTICES[]) s_fs3_VERTICES gpos s_fs3_top s_fs3_ngotos
inv st: s_fs3_top = 0 /\ s_fs3_infinity = s_fs3_ngotos + 2 /\ s_fs3_R = relation
inv sound: forall v. 0 <= v < s_fs3_ngotos -> e #heap(s_fs3_F[]) s_fs3_F s_fs3_tokensetsize v gb -> lv v
inv white: forall v. 0 <= v < s_fs3_ngotos -> #s_fs3_INDEX[v] = 0 -> f0 v -> e #heap(s_fs3_F[]) s_fs3_F s_fs3_tokensetsize v gb
inv done: forall v. 0 <= v < i -> #s_fs3_INDEX[v] <> 0 \/ #s_fs3_R[v] = 0
inv black: forall v. 0 <= v < s_fs3_ngotos -> #s_fs3_INDEX[v] <> 0 -> #s_fs3_INDEX[v] = s_fs3_ngotos + 2 /\ black #heap(s_fs3_F[]) s_fs3_F s_fs3_tokensetsize #heap(s_fs3_INDEX[]) s_fs3_INDEX gpos #heap(s_fs3_R[]) s_fs3_R #heap(s_fs3_R[][]) s_fs3_ngotos v
var: s_fs3_ngotos - i

== set_state_table files=byacc/lalr.c,byacc/main.c props=C02
singleton byacc_t:s_
logic:
 function nd int : int
 constant nn : int
requires list: nn >= 0 /\ nd 0 = s_first_state /\ nd nn = 0 /\ (forall k. 0 <= k < nn -> nd k <> 0 /\ #heap(s_first_state->next)[nd k] = nd (k + 1)) /\ #brk(s_state_table) > 0
requires numbers: forall k l. 0 <= k < nn -> 0 <= l < nn -> #heap(s_first_state->number)[nd k] = #heap(s_first_state->number)[nd l] -> k = l
ensures indexed: forall k. 0 <= k < nn -> #s_state_table[#heap(s_first_state->number)[nd k]] = nd k
ghost let ref gk = 0 in
loop 1
before: gk <- 0
inv pos: 0 <= gk <= nn /\ sp = nd gk
inv done: forall k. 0 <= k < gk -> #s_state_table[#heap(s_first_state->number)[nd k]] = nd k
var: nn - gk
after_body: gk <- gk + 1

== set_accessing_symbol files=byacc/lalr.c,byacc/main.c props=C02
singleton byacc_t:s_
logic:
 function nd int : int
 constant nn : int
requires list: nn >= 0 /\ nd 0 = s_first_state /\ nd nn = 0 /\ (forall k. 0 <= k < nn -> nd k <> 0 /\ #heap(s_first_state->next)[nd k] = nd (k + 1)) /\ #brk(s_accessing_symbol) > 0
requires numbers: forall k l. 0 <= k < nn -> 0 <= l < nn -> #heap(s_first_state->number)[nd k] = #heap(s_first_state->number)[nd l] -> k = l
ensures indexed: forall k. 0 <= k < nn -> #s_accessing_symbol[#heap(s_first_state->number)[nd k]] = #heap(s_first_state->accessing_symbol)[nd k]
ghost let ref gk = 0 in
loop 1
before: gk <- 0
inv pos: 0 <= gk <= nn /\ sp = nd gk
inv done: forall k. 0 <= k < gk -> #s_accessing_symbol[#heap(s_first_state->number)[nd k]] = #heap(s_first_state->accessing_symbol)[nd k]
var: nn - gk
after_body: gk <- gk + 1

== set_shift_table files=byacc/lalr.c,byacc/main.c props=C02
singleton byacc_t:s_
logic:
 function nd int : int
 constant nn : int
requires list: nn >= 0 /\ nd 0 = s_first_shift /\ nd nn = 0 /\ (forall k. 0 <= k < nn -> nd k <> 0 /\ #heap(s_first_shift->next)[nd k] = nd (k + 1)) /\ #brk(s_shift_table) > 0
requires numbers: forall k l. 0 <= k < nn -> 0 <= l < nn -> #heap(s_first_shift->number)[nd k] = #heap(s_first_shift->number)[nd l] -> k = l
ensures indexed: forall k. 0 <= k < nn -> #s_shift_table[#heap(s_first_shift->number)[nd k]] = nd k
ensures absent: forall s. 0 <= s < s_nstates -> (forall k. 0 <= k < nn -> #heap(s_first_shift->number)[nd k] <> s) -> #s_shift_table[s] = 0
ghost let ref gk = 0 in
loop 1
before: gk <- 0
inv pos: 0 <= gk <= nn /\ sp = nd gk
inv done: forall k. 0 <= k < gk -> #s_shift_table[#heap(s_first_shift->number)[nd k]] = nd k
inv absent: forall s. 0 <= s < s_nstates -> (forall k. 0 <= k < gk -> #heap(s_first_shift->number)[nd k] <> s) -> #s_shift_table[s] = 0
var: nn - gk
after_body: gk <- gk + 1

== set_reduction_table files=byacc/lalr.c,byacc/main.c props=C02
singleton byacc_t:s_
logic:
 function nd int : int
 constant nn : int
requires list: nn >= 0 /\ nd 0 = s_first_reduction /\ nd nn = 0 /\ (forall k. 0 <= k < nn -> nd k <> 0 /\ #heap(s_first_reduction->next)[nd k] = nd (k + 1)) /\ #brk(s_reduction_table) > 0
requires numbers: forall k l. 0 <= k < nn -> 0 <= l < nn -> #heap(s_first_reduction->number)[nd k] = #heap(s_first_reduction->number)[nd l] -> k = l
ensures indexed: forall k. 0 <= k < nn -> #s_reduction_table[#heap(s_first_reduction->number)[nd k]] = nd k
ensures absent: forall s. 0 <= s < s_nstates -> (forall k. 0 <= k < nn -> #heap(s_first_reduction->number)[nd k] <> s) -> #s_reduction_table[s] = 0
ghost let ref gk = 0 in
loop 1
before: gk <- 0
inv pos: 0 <= gk <= nn /\ rp = nd gk
inv done: forall k. 0 <= k < gk -> #s_reduction_table[#heap(s_first_reduction->number)[nd k]] = nd k
inv absent: forall s. 0 <= s < s_nstates -> (forall k. 0 <= k < gk -> #heap(s_first_reduction->number)[nd k] <> s) -> #s_reduction_table[s] = 0
var: nn - gk
after_body: gk <- gk + 1

== set_maxrhs files=byacc/lalr.c props=C02
singleton byacc_t:s_
logic:
 (* number of symbols since the last rule end *)
 function rl (m: map int int) (p k: int) : int
 axiom rl_0: forall m p. rl m p 0 = 0
 axiom rl_s: forall m p k k1 [rl m p k, rl m p k1]. k >= 0 -> k1 = k + 1 -> rl m p k1 = (if m[off p k] >= 0 then rl m p k + 1 else 0)
requires n: s_nitems >= 0
ensures upper: forall k. 0 <= k < s_nitems -> #s_ritem[k] < 0 -> rl #heap(s_ritem[]) s_ritem k <= s_fs3_maxrhs
ensures tight: s_fs3_maxrhs = 0 \/ exists k. 0 <= k < s_nitems /\ #s_ritem[k] < 0 /\ rl #heap(s_ritem[]) s_ritem k = s_fs3_maxrhs
ghost let ref gk = 0 in
loop 1
before: gk <- 0
inv pos: 0 <= gk <= s_nitems /\ itemp = off s_ritem gk /\ item_end = off s_ritem s_nitems /\ length = rl #heap(s_ritem[]) s_ritem gk
inv upper: forall k. 0 <= k < gk -> #s_ritem[k] < 0 -> rl #heap(s_ritem[]) s_ritem k <= max
inv tight: max = 0 \/ exists k. 0 <= k < gk /\ #s_ritem[k] < 0 /\ rl #heap(s_ritem[]) s_ritem k = max
var: s_nitems - gk
after_body: gk <- gk + 1

== initialize_LA files=byacc/lalr.c,byacc/main.c props=C02
singleton byacc_t:s_
use lib.BitRel
logic:
 function nr (t h: map int int) (p k: int) : int = if t[off p k] = 0 then 0 else h[t[off p k]]
 (* number of reductions of the states before k *)
 function ps (t h: map int int) (p k: int) : int
 axiom ps_0: forall t h p. ps t h p 0 = 0
 axiom ps_s: forall t h p k k1 [ps t h p k, ps t h p k1]. k >= 0 -> k1 = k + 1 -> ps t h p k1 = ps t h p k + nr t h p k
requires n: s_nstates >= 0 /\ forall i. 0 <= i < s_nstates -> #s_reduction_table[i] <> 0 -> #heap(s_reduction_table[]->nreds)[#s_reduction_table[i]] >= 0
requires brk: #brk(s_lookaheads) > 0 /\ #brk(s_LA) > 0 /\ #brk(s_LAruleno) > 0 /\ #brk(s_fs3_lookback) > 0 /\ s_fs3_tokensetsize >= 0
ensures index: forall i. 0 <= i <= s_nstates -> #s_lookaheads[i] = ps #heap(s_reduction_table[]) #heap(s_reduction_table[]->nreds) s_reduction_table i
ensures rules: forall i j. 0 <= i < s_nstates -> #s_reduction_table[i] <> 0 -> 0 <= j < #heap(s_reduction_table[]->nreds)[#s_reduction_table[i]] ->
   #s_LAruleno[#s_lookaheads[i] + j] = #heap(s_reduction_table[]->rules[])[off #heap(s_reduction_table[]->rules)[#s_reduction_table[i]] j]
ensures empty: forall a. 0 <= a < #s_lookaheads[s_nstates] -> #s_fs3_lookback[a] = 0 /\ forall c. 0 <= c < 64 * s_fs3_tokensetsize -> not (e #heap(s_LA[]) s_LA s_fs3_tokensetsize a c)
loop 1
inv pos: 0 <= i <= s_nstates /\ k >= 0 /\ k = ps #heap(s_reduction_table[]) #heap(s_reduction_table[]->nreds) s_reduction_table i
inv done: forall x. 0 <= x < i -> 0 <= #s_lookaheads[x] <= k /\ #s_lookaheads[x] = ps #heap(s_reduction_table[]) #heap(s_reduction_table[]->nreds) s_reduction_table x
var: s_nstates - i
loop 2
inv pos: 0 <= i <= s_nstates /\ k = #s_lookaheads[i]
inv done: forall x j. 0 <= x < i -> #s_reduction_table[x] <> 0 -> 0 <= j < #heap(s_reduction_table[]->nreds)[#s_reduction_table[x]] ->
   #s_lookaheads[x] + j < k /\ #s_LAruleno[#s_lookaheads[x] + j] = #heap(s_reduction_table[]->rules[])[off #heap(s_reduction_table[]->rules)[#s_reduction_table[x]] j]
var: s_nstates - i
loop 3
inv pos: 0 <= j <= #rp->nreds /\ k = #s_lookaheads[i] + j
inv cur: forall l. 0 <= l < j -> #s_LAruleno[#s_lookaheads[i] + l] = #rp->rules[l]
inv done: forall x l. 0 <= x < i -> #s_reduction_table[x] <> 0 -> 0 <= l < #heap(s_reduction_table[]->nreds)[#s_reduction_table[x]] ->
   #s_lookaheads[x] + l < #s_lookaheads[i] /\ #s_LAruleno[#s_lookaheads[x] + l] = #heap(s_reduction_table[]->rules[])[off #heap(s_reduction_table[]->rules)[#s_reduction_table[x]] l]
var: #rp->nreds - j

== map_goto files=byacc/lalr.c props=C02
singleton byacc_t:s_
ghost let ref gm = any int in
requires sorted: forall a b. #s_goto_map[symbol] <= a < b < #s_goto_map[symbol + 1] -> #s_from_state[a] < #s_from_state[b]
requires exists: #s_goto_map[symbol] >= 0 /\ exists m. #s_goto_map[symbol] <= m < #s_goto_map[symbol + 1] /\ #s_from_state[m] = state
ensures found: #s_goto_map[symbol] <= result < #s_goto_map[symbol + 1] /\ #s_from_state[result] = state
loop 1
inv range: #s_goto_map[symbol] <= low /\ high <= #s_goto_map[symbol + 1] /\ exists m. low <= m <= high /\ m < #s_goto_map[symbol + 1] /\ #s_from_state[m] = state
var: high - low

== add_lookback_edge files=byacc/lalr.c,byacc/main.c props=C02
singleton byacc_t:s_
requires item: exists k. #s_lookaheads[stateno] <= k < #s_lookaheads[stateno + 1] /\ #s_LAruleno[k] = ruleno
requires brk: #brk(s_fs3_lookback[]) > 0
ensures added: exists k. #s_lookaheads[stateno] <= k < #s_lookaheads[stateno + 1] /\ #s_LAruleno[k] = ruleno /\ #s_fs3_lookback[k] >= old #brk(s_fs3_lookback[]) /\ #heap(s_fs3_lookback[]->value)[#s_fs3_lookback[k]] = gotono /\
   #heap(s_fs3_lookback[]->next)[#s_fs3_lookback[k]] = (old #heap(s_fs3_lookback[]))[off s_fs3_lookback k] /\ (forall l. l <> k -> #s_fs3_lookback[l] = (old #heap(s_fs3_lookback[]))[off s_fs3_lookback l])
ensures brk: #brk(s_fs3_lookback[]) >= old #brk(s_fs3_lookback[]) /\ forall k. #s_fs3_lookback[k] <> (old #heap(s_fs3_lookback[]))[off s_fs3_lookback k] -> #s_fs3_lookback[k] < #brk(s_fs3_lookback[])
ensures frame: forall x. x < old #brk(s_fs3_lookback[]) -> #heap(s_fs3_lookback[]->value)[x] = (old #heap(s_fs3_lookback[]->value))[x] /\ #heap(s_fs3_lookback[]->next)[x] = (old #heap(s_fs3_lookback[]->next))[x]
loop 1
inv i: #s_lookaheads[stateno] <= i /\ k = #s_lookaheads[stateno + 1] /\ (found = 0 \/ found = 1) /\ (found = 1 -> i < k /\ #s_LAruleno[i] = ruleno)
inv none: found = 0 -> exists m. i <= m < k /\ #s_LAruleno[m] = ruleno
var: k - i + (1 - found)

== compute_lookaheads files=byacc/lalr.c props=C02
singleton byacc_t:s_
use lib.BitRel
logic:
 constant gb : int
 (* lookback list of each reduction: its k-th node, and its length *)
 function nd int int : int
 function ll int : int
requires bit: s_fs3_tokensetsize >= 0 /\ 0 <= gb < 64 * s_fs3_tokensetsize
requires lists: forall i. 0 <= i < #s_lookaheads[s_nstates] -> ll i >= 0 /\ nd i 0 = #s_fs3_lookback[i] /\ nd i (ll i) = 0 /\ forall k. 0 <= k < ll i -> nd i k <> 0 /\ #heap(s_fs3_lookback[]->next)[nd i k] = nd i (k + 1)
ensures union: forall i. 0 <= i < #s_lookaheads[s_nstates] -> (e #heap(s_LA[]) s_LA s_fs3_tokensetsize i gb <->
   e (old #heap(s_LA[])) s_LA s_fs3_tokensetsize i gb \/ exists k. 0 <= k < ll i /\ e #heap(s_fs3_F[]) (old s_fs3_F) s_fs3_tokensetsize #heap(s_fs3_lookback[]->value)[nd i k] gb)
ghost let ref gk = 0 in
loop 1
inv pos: 0 <= i /\ rowp = s_LA + cmul i s_fs3_tokensetsize /\ n = #s_lookaheads[s_nstates]
inv done: forall a. 0 <= a < i -> a < n -> (e #heap(s_LA[]) s_LA s_fs3_tokensetsize a gb <-> e (old #heap(s_LA[])) s_LA s_fs3_tokensetsize a gb \/ exists k. 0 <= k < ll a /\ e #heap(s_fs3_F[]) s_fs3_F s_fs3_tokensetsize #heap(s_fs3_lookback[]->value)[nd a k] gb)
inv rest: forall x. x >= rowp -> #heap(s_LA[])[x] = (old #heap(s_LA[]))[x]
var: n - i
loop 2
before: gk <- 0
inv pos: 0 <= gk <= ll i /\ sp = nd i gk
inv cur: e #heap(s_LA[]) s_LA s_fs3_tokensetsize i gb <-> e (old #heap(s_LA[])) s_LA s_fs3_tokensetsize i gb \/ exists k. 0 <= k < gk /\ e #heap(s_fs3_F[]) s_fs3_F s_fs3_tokensetsize #heap(s_fs3_lookback[]->value)[nd i k] gb
inv frame: forall x. x < rowp \/ x >= fp3 -> #heap(s_LA[])[x] = (#heap(s_LA[]) at L2)[x]
var: ll i - gk
after_body: gk <- gk + 1
loop 3
inv pos: rowp <= fp1 <= fp3 /\ fp2 = s_fs3_F + cmul s_fs3_tokensetsize #sp->value + (fp1 - rowp)
inv done: forall w. 0 <= w < fp1 - rowp -> #heap(s_LA[])[off rowp w] = wor (#heap(s_LA[]) at L3)[off rowp w] #heap(s_fs3_F[])[off (s_fs3_F + cmul s_fs3_tokensetsize #sp->value) w]
inv frame: forall x. x < rowp \/ x >= fp1 -> #heap(s_LA[])[x] = (#heap(s_LA[]) at L3)[x]
var: fp3 - fp1
after: assert { e #heap(s_LA[]) s_LA s_fs3_tokensetsize i gb <-> e (#heap(s_LA[]) at L3) s_LA s_fs3_tokensetsize i gb \/ e #heap(s_fs3_F[]) s_fs3_F s_fs3_tokensetsize #sp->value gb };
loop 4
inv i: 0 <= i
loop 5
inv t: true

== transpose files=byacc/lalr.c,byacc/main.c props=C02
singleton byacc_t:s_
use edges.Edges
opt merge u_R2=new_R
requires n: n >= 0 /\ #brk(u_R2) > 0 /\ #brk(u_R2[]) > 0
requires block: u_R2 > 0 /\ u_R2 + n <= #brk(u_R2)
requires rows: forall i. 0 <= i < n -> ln i >= 0 /\ (#u_R2[i] = 0 -> ln i = 0) /\ (#u_R2[i] <> 0 -> 0 < #u_R2[i] /\ #u_R2[i] + ln i < #brk(u_R2[]) /\ #heap(u_R2[][])[off #u_R2[i] (ln i)] < 0) /\
   (forall k. 0 <= k < ln i -> 0 <= #heap(u_R2[][])[off #u_R2[i] k] < n)
requires numbering: forall i u. 0 <= i < n -> st i <= u < st i + ln i -> tg u = #heap(u_R2[][])[off #u_R2[i] (u - st i)] /\ sr u = i
ensures forward: forall i k. 0 <= i < n -> 0 <= k < ln i -> let j = (old #heap(u_R2[][]))[off (old #heap(u_R2[]))[off u_R2 i] k] in 0 <= cn (st i + k) j < cn (st n) j /\ #result[j] <> 0 /\ #heap(result[][])[off #result[j] (cn (st i + k) j)] = i
ensures placed: forall u. 0 <= u < st n -> 0 <= cn u (tg u) < cn (st n) (tg u) /\ #result[tg u] <> 0 /\ #heap(result[][])[off #result[tg u] (cn u (tg u))] = sr u
ensures backward: forall j p. 0 <= j < n -> 0 <= p < cn (st n) j -> isslot (st n) j p && exists i k. 0 <= i < n /\ 0 <= k < ln i /\ (old #heap(u_R2[][]))[off (old #heap(u_R2[]))[off u_R2 i] k] = j /\ #heap(result[][])[off #result[j] p] = i
ensures frame: forall x. x < old #brk(u_R2) -> #heap(u_R2[])[x] = (old #heap(u_R2[]))[x]
ensures ends: forall j. 0 <= j < n -> (cn (st n) j = 0 -> #result[j] = 0) /\ (cn (st n) j > 0 -> #result[j] <> 0 /\ #heap(result[][])[off #result[j] (cn (st n) j)] < 0)
ghost let ref gk = 0 in
ghost let ref gj = 0 in
ghost let ref gp = 0 in
entry: st_mono 0 n; cn_in (st n); edges_in n;
exit: edges_in n; cn_in (st n);
 assert { forall i k. 0 <= i < n -> 0 <= k < ln i -> 0 <= st i + k < st n };
 assert { forall i k. 0 <= i < n -> 0 <= k < ln i -> tg (st i + k) = (old #heap(u_R2[][]))[off (old #heap(u_R2[]))[off u_R2 i] k] };
 assert { forall u. 0 <= u < st n -> 0 <= cn u (tg u) < cn (st n) (tg u) };
 assert { forall j p. 0 <= p < cn (st n) j -> isslot (st n) j p };
 assert { forall u. 0 <= u < st n -> isedge n u };
 assert { forall i k. 0 <= i < n -> 0 <= k < ln i -> sr (st i + k) = i /\ tg (st i + k) = (old #heap(u_R2[][]))[off (old #heap(u_R2[]))[off u_R2 i] k] };
 assert { forall u. 0 <= u < st n -> #heap(new_R[][])[off #new_R[tg u] (cn u (tg u))] = sr u };
 assert { forall u. 0 <= u < st n -> isedge n u && (0 <= sr u < n /\ 0 <= u - st (sr u) < ln (sr u)) };
 assert { forall u. 0 <= u < st n -> isedge n u && (tg u = (old #heap(u_R2[][]))[off (old #heap(u_R2[]))[off u_R2 (sr u)] (u - st (sr u))]) };
 assert { forall j p. 0 <= j < n -> 0 <= p < cn (st n) j -> isslot (st n) j p && (exists u. 0 <= u < st n /\ tg u = j /\ cn u j = p) };
 assert { forall j p. 0 <= j < n -> 0 <= p < cn (st n) j -> isslot (st n) j p && (exists u. let i = sr u in let k = u - st (sr u) in 0 <= i < n /\ 0 <= k < ln i /\ (old #heap(u_R2[][]))[off (old #heap(u_R2[]))[off u_R2 i] k] = j /\ #heap(new_R[][])[off #new_R[j] p] = i) };
loop 1
inv i: 0 <= i <= n /\ 0 <= st i
inv count: forall j. 0 <= j < n -> #nedges[j] = cn (st i) j
var: n - i
loop 2
before: gk <- 0; st_mono (i + 1) n;
inv st: 0 <= i < n /\ 0 <= st i /\ st i + ln i = st (i + 1) /\ st (i + 1) <= st n
inv pos: 0 <= gk <= ln i /\ sp = off #u_R2[i] gk
inv count: forall j. 0 <= j < n -> #nedges[j] = cn (st i + gk) j
after_body: gk <- gk + 1
var: ln i - gk
loop 3
inv i: 0 <= i <= n /\ #brk(u_R2[]) >= old #brk(u_R2[])
inv rows: forall a. 0 <= a < n -> #nedges[a] = cn (st n) a /\ #nedges[a] >= 0
inv temp: forall a. 0 <= a < i -> cn (st n) a > 0 -> #temp_R[a] = #new_R[a]
inv null: forall a. 0 <= a < i -> cn (st n) a = 0 -> #new_R[a] = 0
inv block: forall a. 0 <= a < i -> cn (st n) a > 0 -> #new_R[a] >= old #brk(u_R2[]) /\ #new_R[a] > 0 /\ #new_R[a] + cn (st n) a < #brk(u_R2[])
inv end: forall a. 0 <= a < i -> cn (st n) a > 0 -> #heap(new_R[][])[off #new_R[a] (cn (st n) a)] = -1
inv apart: forall a b. 0 <= a < b < i -> cn (st n) a > 0 -> cn (st n) b > 0 -> #new_R[a] + cn (st n) a < #new_R[b]
inv later: forall a. i <= a < n -> #new_R[a] = 0
inv array: #brk(u_R2) >= old #brk(u_R2) /\ forall x. x < old #brk(u_R2) -> #heap(u_R2[])[x] = (old #heap(u_R2[]))[x]
inv frame: forall x. x < old #brk(u_R2[]) -> #heap(u_R2[][])[x] = (old #heap(u_R2[][]))[x]
var: n - i
after_body: assert { forall a. 0 <= a < i -> cn (st n) a > 0 -> #heap(new_R[][])[off #new_R[a] (cn (st n) a)] = -1 };
 assert { cn (st n) i > 0 -> #new_R[i] >= old #brk(u_R2[]) /\ #heap(new_R[][])[off #new_R[i] (cn (st n) i)] = -1 };
loop 4
inv i: 0 <= i <= n /\ 0 <= st i
inv ends: forall a. 0 <= a < n -> cn (st n) a > 0 -> #heap(new_R[][])[off #new_R[a] (cn (st n) a)] = -1
inv next: forall a. 0 <= a < n -> cn (st n) a > 0 -> #temp_R[a] = off #new_R[a] (cn (st i) a)
inv done: forall u. 0 <= u < st i -> 0 <= tg u < n /\ #heap(new_R[][])[off #new_R[tg u] (cn u (tg u))] = sr u
inv array: #brk(u_R2) >= old #brk(u_R2) /\ forall x. x < old #brk(u_R2) -> #heap(u_R2[])[x] = (old #heap(u_R2[]))[x]
inv frame: forall x. x < old #brk(u_R2[]) -> #heap(u_R2[][])[x] = (old #heap(u_R2[][]))[x]
var: n - i
loop 5
before: gk <- 0; st_mono (i + 1) n;
inv st: 0 <= i < n /\ 0 <= st i /\ st i + ln i = st (i + 1) /\ st (i + 1) <= st n
inv pos: 0 <= gk <= ln i /\ sp = off #u_R2[i] gk
inv ends: forall a. 0 <= a < n -> cn (st n) a > 0 -> #heap(new_R[][])[off #new_R[a] (cn (st n) a)] = -1
inv next: forall a. 0 <= a < n -> cn (st n) a > 0 -> #temp_R[a] = off #new_R[a] (cn (st i + gk) a)
inv done: forall u. 0 <= u < st i + gk -> 0 <= tg u < n /\ #heap(new_R[][])[off #new_R[tg u] (cn u (tg u))] = sr u
inv array: #brk(u_R2) >= old #brk(u_R2) /\ forall x. x < old #brk(u_R2) -> #heap(u_R2[])[x] = (old #heap(u_R2[]))[x]
inv frame: forall x. x < old #brk(u_R2[]) -> #heap(u_R2[][])[x] = (old #heap(u_R2[][]))[x]
body: gj <- #heap(u_R2[][])[off #u_R2[i] gk]; gp <- #temp_R[gj];
 assert { gj = tg (st i + gk) /\ sr (st i + gk) = i /\ 0 <= gj < n /\ 0 <= cn (st i + gk) gj < cn (st n) gj };
 cn_in (st i + gk);
 assert { gp = off #new_R[gj] (cn (st i + gk) gj) };
after_body: gk <- gk + 1
var: ln i - gk

== set_goto_map files=byacc/lalr.c,byacc/main.c props=C02
singleton byacc_t:s_
use edges.Edges
logic:
 (* the states' shift lists: nd k is the k-th; its last ln k entries are the goto transitions; goto transition u, in the order visited, is on the symbol tg u, from the state of shift list sr u *)
 function nd int : int
 val constant nn : int
ghost let ref gk = 0 in
ghost let ref gj = 0 in
ghost let ref gt = 0 in
ghost let ref gu = 0 in
requires list: nn >= 0 /\ nd 0 = s_first_shift /\ nd nn = 0 /\ (forall k. 0 <= k < nn -> nd k <> 0 /\ #heap(s_first_shift->next)[nd k] = nd (k + 1))
requires brk: #brk(s_goto_base) > 0 /\ #brk(s_from_state) > 0 /\ #brk(s_to_state) > 0
requires symbols: s_nvars >= 0 /\ s_nsyms = s_ntokens + s_nvars /\ s_ntokens >= 0 /\ s_start_symbol = s_ntokens
requires gotos: forall k. 0 <= k < nn -> 0 <= ln k <= #heap(s_first_shift->nshifts)[nd k] /\
   (forall u. st k <= u < st k + ln k -> tg u = #s_accessing_symbol[#heap(s_first_shift->shift[])[off #heap(s_first_shift->shift)[nd k] (#heap(s_first_shift->nshifts)[nd k] - 1 - (u - st k))]] /\ s_ntokens <= tg u < s_nsyms /\ sr u = k) /\
   (ln k < #heap(s_first_shift->nshifts)[nd k] -> #s_accessing_symbol[#heap(s_first_shift->shift[])[off #heap(s_first_shift->shift)[nd k] (#heap(s_first_shift->nshifts)[nd k] - 1 - ln k)]] < s_ntokens)
ensures count: s_fs3_ngotos = st nn
ensures map: forall s. s_ntokens <= s <= s_nsyms -> #s_goto_map[s] = gs (st nn) s_ntokens s
ensures placed: forall k u. 0 <= k < nn -> st k <= u < st k + ln k -> let x = gs (st nn) s_ntokens (tg u) + cn u (tg u) in
   #s_goto_map[tg u] <= x < #s_goto_map[tg u + 1] /\ #s_from_state[x] = #heap(s_first_shift->number)[nd k] /\ #s_to_state[x] = #heap(s_first_shift->shift[])[off #heap(s_first_shift->shift)[nd k] (#heap(s_first_shift->nshifts)[nd k] - 1 - (u - st k))]
loop 1
before: gk <- 0; st_mono 0 nn; edges_in nn;
inv pos: 0 <= gk <= nn /\ sp = nd gk /\ s_fs3_ngotos = st gk /\ 0 <= st gk
inv count: forall s. s_ntokens <= s <= s_nsyms -> #s_goto_map[s] = cn (st gk) s
after_body: gk <- gk + 1
var: nn - gk
loop 2
before: gj <- 0; st_mono (gk + 1) nn;
inv pos: 0 <= gj <= ln gk /\ 0 <= gk < nn /\ sp = nd gk /\ i = #sp->nshifts - 1 - gj /\ s_fs3_ngotos = st gk + gj
inv count: forall s. s_ntokens <= s <= s_nsyms -> #s_goto_map[s] = cn (st gk + gj) s
after_body: gj <- gj + 1
after: assert { gj = ln gk };
var: i + 1
loop 3
before: gt <- st nn;
 assert { forall s. s_ntokens <= s <= s_nsyms -> #s_goto_map[s] = cn gt s };
 assert { forall u. 0 <= u < gt -> isedge nn u && (s_ntokens <= tg u < s_nsyms) };
 gs_total gt s_ntokens s_nsyms; gs_all gt s_ntokens s_nsyms; cn_in gt;
inv pos: s_ntokens <= i <= s_nsyms /\ k = gs gt s_ntokens i
inv done: forall s. s_ntokens <= s < i -> #temp_map[s] = gs gt s_ntokens s
var: s_nsyms - i
loop 4
inv pos: s_ntokens <= i <= s_nsyms
inv done: forall s. s_ntokens <= s < i -> #s_goto_map[s] = gs gt s_ntokens s
var: s_nsyms - i
loop 5
before: gk <- 0;
inv pos: 0 <= gk <= nn /\ sp = nd gk /\ 0 <= st gk
inv next: forall s. s_ntokens <= s < s_nsyms -> #temp_map[s] = gs gt s_ntokens s + cn (st gk) s
inv done: forall u. 0 <= u < st gk -> let x = gs gt s_ntokens (tg u) + cn u (tg u) in #s_from_state[x] = #heap(s_first_shift->number)[nd (sr u)] /\ #s_to_state[x] = #heap(s_first_shift->shift[])[off #heap(s_first_shift->shift)[nd (sr u)] (#heap(s_first_shift->nshifts)[nd (sr u)] - 1 - (u - st (sr u)))]
after_body: gk <- gk + 1
var: nn - gk
loop 6
before: gj <- 0; st_mono (gk + 1) nn;
inv pos: 0 <= gj <= ln gk /\ 0 <= gk < nn /\ sp = nd gk /\ i = #sp->nshifts - 1 - gj /\ state1 = #sp->number
inv next: forall s. s_ntokens <= s < s_nsyms -> #temp_map[s] = gs gt s_ntokens s + cn (st gk + gj) s
inv done: forall u. 0 <= u < st gk + gj -> let x = gs gt s_ntokens (tg u) + cn u (tg u) in #s_from_state[x] = #heap(s_first_shift->number)[nd (sr u)] /\ #s_to_state[x] = #heap(s_first_shift->shift[])[off #heap(s_first_shift->shift)[nd (sr u)] (#heap(s_first_shift->nshifts)[nd (sr u)] - 1 - (u - st (sr u)))]
after_body: gu <- st gk + gj; cn_in gu;
 assert { symbol = tg gu /\ sr gu = gk /\ s_ntokens <= symbol < s_nsyms /\ gu < gt /\ state2 = #heap(s_first_shift->shift[])[off #heap(s_first_shift->shift)[nd (sr gu)] (#heap(s_first_shift->nshifts)[nd (sr gu)] - 1 - (gu - st (sr gu)))] };
 assert { 0 <= cn gu (tg gu) < cn gt (tg gu) };
 assert { forall u. 0 <= u < gu -> isedge nn u && (s_ntokens <= tg u < s_nsyms) };
 assert { forall u. 0 <= u < gu -> tg u = tg gu -> cn u (tg u) < cn gu (tg gu) };
 assert { forall u. 0 <= u < gu -> 0 <= cn u (tg u) < cn gt (tg u) };
 assert { forall u. 0 <= u < gu -> tg u <> tg gu -> gs gt s_ntokens (tg u) + cn gt (tg u) <= gs gt s_ntokens (tg gu) \/ gs gt s_ntokens (tg gu) + cn gt (tg gu) <= gs gt s_ntokens (tg u) };
 assert { forall u. 0 <= u < gu -> gs gt s_ntokens (tg u) + cn u (tg u) <> gs gt s_ntokens (tg gu) + cn gu (tg gu) };
 gj <- gj + 1
after: assert { gj = ln gk };
var: i + 1
exit: edges_in nn;
 assert { forall k u. 0 <= k < nn -> st k <= u < st k + ln k -> 0 <= u < st nn /\ sr u = k };
 assert { forall s. s_ntokens <= s < s_nsyms -> gs gt s_ntokens (s + 1) = gs gt s_ntokens s + cn gt s };

== initialize_F files=byacc/lalr.c,byacc/main.c props=C02
singleton byacc_t:s_
use lib.BitRel
use dig.Dig
logic:
 (* goto v leads to a state with ns v shifts; sy v j: symbol of the j-th; the first tk v are tokens *)
 function ns int : int
 function tk int : int
 function sy int int : int
 predicate nl int
 (* nullable variables among the first j shifts *)
 function nv int int : int
 axiom nv_0: forall v. nv v 0 = 0
 axiom nv_s: forall v j j1 [nv v j, nv v j1]. 0 <= j -> j1 = j + 1 -> nv v j1 = nv v j + (if nl (sy v j) then 1 else 0)
requires sizes: s_fs3_tokensetsize >= 0 /\ s_ntokens <= 64 * s_fs3_tokensetsize /\ 0 <= gb < 64 * s_fs3_tokensetsize /\ 0 < s_ntokens /\ s_start_symbol = s_ntokens /\ s_fs3_ngotos > 0 /\ s_fs3_tokensetsize > 0
requires brk: #brk(s_fs3_F) > 0 /\ #brk(s_fs3_R) > 0 /\ #brk(s_fs3_R[]) > 0 /\ #brk(s_fs3_INDEX) > 0 /\ #brk(s_fs3_VERTICES) > 0
requires shifts: forall v. 0 <= v < s_fs3_ngotos -> ns v = (if #s_shift_table[#s_to_state[v]] = 0 then 0 else #heap(s_shift_table[]->nshifts)[#s_shift_table[#s_to_state[v]]]) /\ 0 <= tk v <= ns v /\
   forall j. 0 <= j < ns v -> sy v j = #s_accessing_symbol[#heap(s_shift_table[]->shift[])[off #heap(s_shift_table[]->shift)[#s_shift_table[#s_to_state[v]]] j]] /\ 0 <= sy v j /\ (sy v j < s_ntokens <-> j < tk v)
requires nullable: forall s. (nl s <-> #s_nullable[s] <> 0) /\ (s < s_ntokens -> not nl s)
requires gotos: forall s. s >= s_ntokens -> 0 <= #s_goto_map[s] /\ #s_goto_map[s + 1] <= s_fs3_ngotos /\ forall a b. #s_goto_map[s] <= a < b < #s_goto_map[s + 1] -> #s_from_state[a] < #s_from_state[b]
requires transitions: forall v j. 0 <= v < s_fs3_ngotos -> tk v <= j < ns v -> exists m. #s_goto_map[sy v j] <= m < #s_goto_map[sy v j + 1] /\ #s_from_state[m] = #s_to_state[v]
requires initial: forall v. 0 <= v < s_fs3_ngotos -> (f0 v <-> (v = 0 /\ gb = 0) \/ exists j. 0 <= j < tk v /\ sy v j = gb)
requires solution: (forall v. 0 <= v < s_fs3_ngotos -> f0 v -> lv v) /\
   forall v j x. 0 <= v < s_fs3_ngotos -> tk v <= j < ns v -> nl (sy v j) -> #s_goto_map[sy v j] <= x < #s_goto_map[sy v j + 1] -> #s_from_state[x] = #s_to_state[v] -> lv x -> lv v
requires len: forall v. 0 <= v < s_fs3_ngotos -> len v = nv v (ns v)
ensures contains: forall v. 0 <= v < s_fs3_ngotos -> f0 v -> e #heap(s_fs3_F[]) s_fs3_F s_fs3_tokensetsize v gb
ensures closed: forall v j x. 0 <= v < s_fs3_ngotos -> tk v <= j < ns v -> nl (sy v j) -> #s_goto_map[sy v j] <= x < #s_goto_map[sy v j + 1] -> #s_from_state[x] = #s_to_state[v] ->
   e #heap(s_fs3_F[]) s_fs3_F s_fs3_tokensetsize x gb -> e #heap(s_fs3_F[]) s_fs3_F s_fs3_tokensetsize v gb
ensures least: forall v. 0 <= v < s_fs3_ngotos -> e #heap(s_fs3_F[]) s_fs3_F s_fs3_tokensetsize v gb -> lv v
loop 1
inv i: 0 <= i <= s_fs3_ngotos /\ rowp = s_fs3_F + cmul i s_fs3_tokensetsize /\ nedges = 0 /\ #brk(reads_[]) > 0
inv initial: forall v. 0 <= v < i -> (e #heap(s_fs3_F[]) s_fs3_F s_fs3_tokensetsize v gb <-> exists j. 0 <= j < tk v /\ sy v j = gb)
inv later: forall v c. i <= v < s_fs3_ngotos -> 0 <= c < 64 * s_fs3_tokensetsize -> not (e #heap(s_fs3_F[]) s_fs3_F s_fs3_tokensetsize v c)
inv null: forall v. 0 <= v < i -> len v >= 0 /\ (len v = 0 -> #reads_[v] = 0) /\ (len v > 0 -> #reads_[v] > 0 /\ #reads_[v] + len v < #brk(reads_[]) /\ #heap(reads_[][])[off #reads_[v] (len v)] = -1)
inv rest: forall v. i <= v < s_fs3_ngotos -> #reads_[v] = 0
inv range: forall v k. 0 <= v < i -> 0 <= k < len v -> 0 <= #heap(reads_[][])[off #reads_[v] k] < s_fs3_ngotos /\ (lv #heap(reads_[][])[off #reads_[v] k] -> lv v)
inv edges: forall v j. 0 <= v < i -> tk v <= j < ns v -> nl (sy v j) -> 0 <= nv v j < len v /\ let x = #heap(reads_[][])[off #reads_[v] (nv v j)] in #s_goto_map[sy v j] <= x < #s_goto_map[sy v j + 1] /\ #s_from_state[x] = #s_to_state[v]
var: s_fs3_ngotos - i
loop 2
inv j: 0 <= j <= k /\ j <= tk i /\ nv i j = 0
inv bit: e #heap(s_fs3_F[]) s_fs3_F s_fs3_tokensetsize i gb <-> exists m. 0 <= m < j /\ sy i m = gb
inv others: forall v. 0 <= v < s_fs3_ngotos -> v <> i -> (forall c. 0 <= c < 64 * s_fs3_tokensetsize -> (e #heap(s_fs3_F[]) s_fs3_F s_fs3_tokensetsize v c <-> e (#heap(s_fs3_F[]) at L2) s_fs3_F s_fs3_tokensetsize v c))
var: k - j
loop 3
inv j: tk i <= j <= k /\ nedges = nv i j /\ nedges >= 0
inv range: forall m. 0 <= m < nedges -> 0 <= #edge[m] < s_fs3_ngotos /\ (lv #edge[m] -> lv i)
inv edges: forall m. tk i <= m < j -> nl (sy i m) -> 0 <= nv i m < nedges /\ let x = #edge[nv i m] in #s_goto_map[sy i m] <= x < #s_goto_map[sy i m + 1] /\ #s_from_state[x] = #s_to_state[i]
var: k - j
loop 4
inv j: 0 <= j <= nedges
inv copied: forall m. 0 <= m < j -> #rp[m] = #edge[m]
inv frame: forall x. x < rp \/ x >= rp + j -> #heap(reads_[][])[x] = (#heap(reads_[][]) at L4)[x]
var: nedges - j
loop 5
inv t: true

== build_relations files=byacc/lalr.c,byacc/main.c props=C02
singleton byacc_t:s_
use edges.Edges
use lalrrel.Rel
opt ghost_writes glen gnode gat gsv gsk
ghost let ref gk = 0 in
ghost let ref gl = 0 in
ghost let ref gm = 0 in
ghost let ref ga = 0 in
requires n: s_fs3_ngotos >= 0 /\ #brk(s_fs3_includes) > 0 /\ #brk(s_fs3_includes[]) > 0 /\ #brk(s_fs3_lookback[]) > 0 /\ s_start_symbol = s_ntokens /\ s_ntokens > 0
requires rules: forall i. 0 <= i < s_fs3_ngotos -> dl i >= 0 /\ (forall k. 0 <= k < dl i -> ru i k = #heap(s_derives[][])[off #s_derives[#s_accessing_symbol[#s_to_state[i]]] k] /\ ru i k >= 0) /\
   #heap(s_derives[][])[off #s_derives[#s_accessing_symbol[#s_to_state[i]]] (dl i)] < 0
requires sides: forall i k. 0 <= i < s_fs3_ngotos -> 0 <= k < dl i -> let r = ru i k in rn r >= 0 /\ #s_ritem[#s_rrhs[r] + rn r] < 0 /\ #s_ritem[#s_rrhs[r] - 1] < 0 /\ forall l. 0 <= l < rn r -> x_ r l = #s_ritem[#s_rrhs[r] + l] /\ x_ r l >= 0
requires trailing: forall i k. 0 <= i < s_fs3_ngotos -> 0 <= k < dl i -> let r = ru i k in 0 <= nt r <= rn r /\ (forall l. rn r - nt r <= l < rn r -> x_ r l >= s_ntokens) /\
   (forall l. rn r - nt r < l < rn r -> #s_nullable[x_ r l] <> 0) /\ (nt r < rn r -> x_ r (rn r - nt r - 1) < s_ntokens \/ (nt r > 0 /\ #s_nullable[x_ r (rn r - nt r)] = 0))
requires paths: forall i k. 0 <= i < s_fs3_ngotos -> 0 <= k < dl i -> pt i k 0 = #s_from_state[i] /\ forall l. 0 <= l < rn (ru i k) -> let sp = #s_shift_table[pt i k l] in
   (exists j. 0 <= j < #heap(s_shift_table[]->nshifts)[sp] /\ #s_accessing_symbol[#heap(s_shift_table[]->shift[])[off #heap(s_shift_table[]->shift)[sp] j]] = x_ (ru i k) l) /\
   (forall j. 0 <= j < #heap(s_shift_table[]->nshifts)[sp] -> #s_accessing_symbol[#heap(s_shift_table[]->shift[])[off #heap(s_shift_table[]->shift)[sp] j]] = x_ (ru i k) l -> #heap(s_shift_table[]->shift[])[off #heap(s_shift_table[]->shift)[sp] j] = pt i k (l + 1))
requires sorted: forall s. s >= s_ntokens -> 0 <= #s_goto_map[s] /\ #s_goto_map[s + 1] <= s_fs3_ngotos /\ forall a b. #s_goto_map[s] <= a < b < #s_goto_map[s + 1] -> #s_from_state[a] < #s_from_state[b]
requires gotos: forall i k l. 0 <= i < s_fs3_ngotos -> 0 <= k < dl i -> 0 <= l < rn (ru i k) -> let y = x_ (ru i k) l in y >= s_ntokens -> #s_goto_map[y] <= go (pt i k l) y < #s_goto_map[y + 1] /\ #s_from_state[go (pt i k l) y] = pt i k l
requires reductions: forall i k. 0 <= i < s_fs3_ngotos -> 0 <= k < dl i -> let q = pt i k (rn (ru i k)) in #s_lookaheads[q] <= la q (ru i k) < #s_lookaheads[q + 1] /\ #s_LAruleno[la q (ru i k)] = ru i k /\
   forall a. #s_lookaheads[q] <= a < #s_lookaheads[q + 1] -> #s_LAruleno[a] = ru i k -> a = la q (ru i k)
requires numbering: forall i. 0 <= i < s_fs3_ngotos -> ln i >= 0 /\ ln i = pn i (dl i) /\ forall u. st i <= u < st i + ln i -> sr u = i
requires targets: forall i k u. 0 <= i < s_fs3_ngotos -> 0 <= k < dl i -> 0 <= u - st i - pn i k < nt (ru i k) -> let l = rn (ru i k) - 1 - (u - st i - pn i k) in tg u = go (pt i k l) (x_ (ru i k) l)
requires empty: chain #heap(s_fs3_lookback[]) s_fs3_lookback #heap(s_fs3_lookback[]->next) glen gnode #brk(s_fs3_lookback[]) /\ forall a. glen[a] = 0
ensures includes-complete: forall u. 0 <= u < st s_fs3_ngotos -> #s_fs3_includes[tg u] <> 0 /\ 0 <= cn u (tg u) < cn (st s_fs3_ngotos) (tg u) /\ #heap(s_fs3_includes[][])[off #s_fs3_includes[tg u] (cn u (tg u))] = sr u
ensures includes-ends: forall j. 0 <= j < s_fs3_ngotos -> (cn (st s_fs3_ngotos) j = 0 -> #s_fs3_includes[j] = 0) /\ (cn (st s_fs3_ngotos) j > 0 -> #s_fs3_includes[j] <> 0 /\ #heap(s_fs3_includes[][])[off #s_fs3_includes[j] (cn (st s_fs3_ngotos) j)] < 0)
ensures lookback-chain: chain #heap(s_fs3_lookback[]) s_fs3_lookback #heap(s_fs3_lookback[]->next) glen gnode #brk(s_fs3_lookback[])
ensures lookback-complete: forall i k. 0 <= i < s_fs3_ngotos -> 0 <= k < dl i -> let a = la (pt i k (rn (ru i k))) (ru i k) in 0 <= gat[i][k] < glen[a] /\ #heap(s_fs3_lookback[]->value)[gnode[a][gat[i][k]]] = i
ensures lookback-sound: forall a m. 0 <= m < glen[a] -> let i = gsv[a][m] in let k = gsk[a][m] in 0 <= i < s_fs3_ngotos /\ 0 <= k < dl i /\ a = la (pt i k (rn (ru i k))) (ru i k) /\ #heap(s_fs3_lookback[]->value)[gnode[a][m]] = i
entry: st_mono 0 s_fs3_ngotos;
loop 1
inv i: 0 <= i <= s_fs3_ngotos /\ #brk(s_fs3_includes[]) > 0 /\ #brk(s_fs3_lookback[]) > 0
inv rows: forall v. 0 <= v < i -> (ln v = 0 -> #s_fs3_includes[v] = 0) /\ (ln v > 0 -> 0 < #s_fs3_includes[v] /\ #s_fs3_includes[v] + ln v < #brk(s_fs3_includes[]) /\ #heap(s_fs3_includes[][])[off #s_fs3_includes[v] (ln v)] < 0) /\
   (forall u. st v <= u < st v + ln v -> #heap(s_fs3_includes[][])[off #s_fs3_includes[v] (u - st v)] = tg u /\ 0 <= tg u < s_fs3_ngotos)
inv targets: forall v k. 0 <= v < i -> 0 <= k < ln v -> 0 <= #heap(s_fs3_includes[][])[off #s_fs3_includes[v] k] < s_fs3_ngotos
inv rest: forall v. i <= v < s_fs3_ngotos -> #s_fs3_includes[v] = 0
inv chain: chain #heap(s_fs3_lookback[]) s_fs3_lookback #heap(s_fs3_lookback[]->next) glen gnode #brk(s_fs3_lookback[])
inv complete: forall v k. 0 <= v < i -> 0 <= k < dl v -> let a = la (pt v k (rn (ru v k))) (ru v k) in 0 <= gat[v][k] < glen[a] /\ #heap(s_fs3_lookback[]->value)[gnode[a][gat[v][k]]] = v
inv sound: forall a m. 0 <= m < glen[a] -> let v = gsv[a][m] in let k = gsk[a][m] in 0 <= v < i /\ 0 <= k < dl v /\ a = la (pt v k (rn (ru v k))) (ru v k) /\ #heap(s_fs3_lookback[]->value)[gnode[a][m]] = v
var: s_fs3_ngotos - i
loop 2
before: gk <- 0;
inv brk: #brk(s_fs3_lookback[]) > 0
inv pos: 0 <= gk <= dl i /\ rulep = off #s_derives[symbol1] gk /\ nedges = pn i gk /\ nedges >= 0
inv edges: forall m. 0 <= m < nedges -> #edge[m] = tg (st i + m) /\ 0 <= #edge[m] < s_fs3_ngotos
inv chain: chain #heap(s_fs3_lookback[]) s_fs3_lookback #heap(s_fs3_lookback[]->next) glen gnode #brk(s_fs3_lookback[])
inv complete: forall v k. (0 <= v < i /\ 0 <= k < dl v) \/ (v = i /\ 0 <= k < gk) -> let a = la (pt v k (rn (ru v k))) (ru v k) in 0 <= gat[v][k] < glen[a] /\ #heap(s_fs3_lookback[]->value)[gnode[a][gat[v][k]]] = v
inv sound: forall a m. 0 <= m < glen[a] -> let v = gsv[a][m] in let k = gsk[a][m] in ((0 <= v < i /\ 0 <= k < dl v) \/ (v = i /\ 0 <= k < gk)) /\ a = la (pt v k (rn (ru v k))) (ru v k) /\ #heap(s_fs3_lookback[]->value)[gnode[a][m]] = v
var: dl i - gk
after_body: gk <- gk + 1
loop 3
before: gl <- 0;
inv pos: 0 <= gl <= rn (ru i gk) /\ rp = off s_ritem (#s_rrhs[ru i gk] + gl) /\ length = gl + 1 /\ stateno = pt i gk gl
inv states: forall m. 0 <= m <= gl -> #states[m] = pt i gk m
var: rn (ru i gk) - gl
after: assert { gl = rn (ru i gk) };
after_body: gl <- gl + 1
loop 4
inv j: 0 <= j <= k
inv todo: exists m. j <= m < k /\ #s_accessing_symbol[#sp->shift[m]] = symbol2
var: k - j
after_call add_lookback_edge: ga <- la stateno (ru i gk);
 gat <- mset gat i (mset (gat[i]) gk (glen[ga]));
 gsv <- mset gsv ga (mset (gsv[ga]) (glen[ga]) i);
 gsk <- mset gsk ga (mset (gsk[ga]) (glen[ga]) gk);
 gnode <- mset gnode ga (mset (gnode[ga]) (glen[ga]) (#s_fs3_lookback[ga]));
 glen <- mset glen ga (glen[ga] + 1);
loop 5
inv states: forall m. 0 <= m <= rn (ru i gk) -> #states[m] = pt i gk m
before: gm <- 0;
inv pos: 0 <= gm <= nt (ru i gk) /\ length = rn (ru i gk) - gm /\ nedges = pn i gk + gm
inv rp: done_flag = 0 -> rp = off s_ritem (#s_rrhs[ru i gk] + length) /\ (gm = 0 \/ (length > 0 /\ #s_nullable[x_ (ru i gk) length] <> 0))
inv flag: (done_flag = 0 \/ done_flag = 1) /\ (done_flag = 1 -> gm = nt (ru i gk))
inv edges: forall m. 0 <= m < nedges -> #edge[m] = tg (st i + m) /\ 0 <= #edge[m] < s_fs3_ngotos
var: rn (ru i gk) - gm + (1 - done_flag)
body: assert { off s_ritem (#s_rrhs[ru i gk] + length - 1) = rp - 1 /\ (length > 0 -> #s_ritem[#s_rrhs[ru i gk] + (length - 1)] = x_ (ru i gk) (length - 1)) };
 assert { length = 0 -> #s_ritem[#s_rrhs[ru i gk] - 1] < 0 };
after_call map_goto: assert { gm < rn (ru i gk) /\ x_ (ru i gk) (rn (ru i gk) - gm - 1) >= s_ntokens };
 assert { gm = nt (ru i gk) -> gm > 0 && #s_nullable[x_ (ru i gk) (rn (ru i gk) - gm)] <> 0 };
 assert { gm < nt (ru i gk) };
 assert { length = rn (ru i gk) - 1 - gm };
 assert { #heap(s_ritem[])[rp] = x_ (ru i gk) length };
 assert { stateno = pt i gk length };
 assert { #s_goto_map[x_ (ru i gk) length] <= go stateno (x_ (ru i gk) length) < #s_goto_map[x_ (ru i gk) length + 1] /\ #s_from_state[go stateno (x_ (ru i gk) length)] = stateno };
 assert { forall a. #s_goto_map[x_ (ru i gk) length] <= a < go stateno (x_ (ru i gk) length) -> #s_from_state[a] < stateno };
 assert { forall a. go stateno (x_ (ru i gk) length) < a < #s_goto_map[x_ (ru i gk) length + 1] -> stateno < #s_from_state[a] };
 assert { forall a. #s_goto_map[x_ (ru i gk) length] <= a < #s_goto_map[x_ (ru i gk) length + 1] -> #s_from_state[a] = stateno -> a = go stateno (x_ (ru i gk) length) };
 assert { tg (st i + pn i gk + gm) = go stateno (x_ (ru i gk) length) };
 gm <- gm + 1;
loop 6
inv j: 0 <= j <= nedges
inv copied: forall m. 0 <= m < j -> #shortp[m] = #edge[m]
inv frame: forall x. x < shortp \/ x >= shortp + j -> #heap(s_fs3_includes[][])[x] = (#heap(s_fs3_includes[][]) at L6)[x]
var: nedges - j
loop 7
inv t: true

== compute_FOLLOWS files=byacc/lalr.c,byacc/main.c props=C02
singleton byacc_t:s_
use lib.BitRel
use dig.Dig
opt ghost_writes gpos
requires bit: s_fs3_tokensetsize >= 0 /\ 0 <= gb < 64 * s_fs3_tokensetsize /\ s_fs3_ngotos >= 0 /\ s_fs3_includes <> 0 /\ #brk(s_fs3_INDEX) > 0 /\ #brk(s_fs3_VERTICES) > 0
requires relation: forall v. 0 <= v < s_fs3_ngotos -> len v >= 0 /\ (#s_fs3_includes[v] = 0 -> len v = 0) /\ (#s_fs3_includes[v] <> 0 -> #heap(s_fs3_includes[][])[off #s_fs3_includes[v] (len v)] < 0) /\ (forall k. 0 <= k < len v -> 0 <= #heap(s_fs3_includes[][])[off #s_fs3_includes[v] k] < s_fs3_ngotos)
requires closed: forall v k. 0 <= v < s_fs3_ngotos -> 0 <= k < len v -> lv #heap(s_fs3_includes[][])[off #s_fs3_includes[v] k] -> lv v
requires sound: forall v. 0 <= v < s_fs3_ngotos -> e #heap(s_fs3_F[]) s_fs3_F s_fs3_tokensetsize v gb -> lv v
requires base: forall v. 0 <= v < s_fs3_ngotos -> f0 v -> e #heap(s_fs3_F[]) s_fs3_F s_fs3_tokensetsize v gb
ensures contains: forall v. 0 <= v < s_fs3_ngotos -> f0 v -> e #heap(s_fs3_F[]) s_fs3_F s_fs3_tokensetsize v gb
ensures closed: forall v k. 0 <= v < s_fs3_ngotos -> 0 <= k < len v -> e #heap(s_fs3_F[]) s_fs3_F s_fs3_tokensetsize #heap(s_fs3_includes[][])[off #s_fs3_includes[v] k] gb -> e #heap(s_fs3_F[]) s_fs3_F s_fs3_tokensetsize v gb
ensures least: forall v. 0 <= v < s_fs3_ngotos -> e #heap(s_fs3_F[]) s_fs3_F s_fs3_tokensetsize v gb -> lv v
