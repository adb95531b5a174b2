== matching_vector files=byacc/output.c props=C05
singleton byacc_t:s_
logic:
 predicate same (fr to_ ti: map int int) (a b n: int)
 axiom same_def: forall fr to_ ti a b n [same fr to_ ti a b n]. same fr to_ ti a b n <-> forall k. 0 <= k < n -> fr[off a k] = fr[off b k]
requires vec: 0 <= vector
ensures found: result <> -1 -> exists p. 0 <= p < vector /\ result = #s_order[p] /\ #s_order[vector] < 2 * s_nstates /\ #s_tally[result] = #s_tally[#s_order[vector]] /\
   (forall k. 0 <= k < #s_tally[result] -> #heap(s_froms[][])[off #s_froms[result] k] = #heap(s_froms[][])[off #s_froms[#s_order[vector]] k] /\
       #heap(s_tos[][])[off #s_tos[result] k] = #heap(s_tos[][])[off #s_tos[#s_order[vector]] k])
loop 1
inv range: -1 <= prev < vector
var: prev
loop 2
inv range: 0 <= k /\ (match_ = 1 \/ match_ = 0)
inv same: match_ = 1 -> (k <= t \/ k = 0) /\ forall l. 0 <= l < k -> #heap(s_froms[][])[off #s_froms[j] l] = #heap(s_froms[][])[off #s_froms[i] l] /\ #heap(s_tos[][])[off #s_tos[j] l] = #heap(s_tos[][])[off #s_tos[i] l]
var: t - k

== pack_vector files=byacc/output.c,byacc/main.c props=C05
singleton byacc_t:s_
requires vec: 0 <= vector /\ #s_tally[#s_order[vector]] > 0
requires storage: s_table > 0 /\ s_check > 0 /\ s_maxtable > 1 /\ #len(s_table)[s_table] = s_maxtable /\ #len(s_check)[s_check] = s_maxtable /\ #brk(s_table) >= s_table + s_maxtable /\ #brk(s_check) >= s_check + s_maxtable
requires room: 0 <= s_lowzero < s_maxtable /\ #s_check[s_maxtable - 1] = -1 /\ (forall l. 0 <= l < s_lowzero -> #s_check[l] <> -1)
requires distinct: forall k l. 0 <= k < l < #s_tally[#s_order[vector]] -> #heap(s_froms[][])[off #s_froms[#s_order[vector]] k] <> #heap(s_froms[][])[off #s_froms[#s_order[vector]] l]
requires valid: forall k. 0 <= k < #s_tally[#s_order[vector]] -> #heap(s_froms[][])[off #s_froms[#s_order[vector]] k] >= 0
ensures base: result <> 0 /\ forall k. 0 <= k < vector -> #s_pos[k] <> result
ensures stored: forall k. 0 <= k < #s_tally[#s_order[vector]] -> let f = #heap(s_froms[][])[off #s_froms[#s_order[vector]] k] in 0 <= result + f < s_maxtable - 1 /\ #s_check[result + f] = f /\ #s_table[result + f] = #heap(s_tos[][])[off #s_tos[#s_order[vector]] k]
ensures kept: forall l. 0 <= l < old s_maxtable -> (old #heap(s_check[]))[off (old s_check) l] <> -1 -> #s_check[l] = (old #heap(s_check[]))[off (old s_check) l] /\ #s_table[l] = (old #heap(s_table[]))[off (old s_table) l]
ensures only: forall l. 0 <= l < s_maxtable -> #s_check[l] <> -1 -> (l < old s_maxtable /\ (old #heap(s_check[]))[off (old s_check) l] <> -1) \/ exists k. 0 <= k < #s_tally[#s_order[vector]] /\ l = result + #heap(s_froms[][])[off #s_froms[#s_order[vector]] k]
ensures high: s_high >= old s_high /\ forall k. 0 <= k < #s_tally[#s_order[vector]] -> result + #heap(s_froms[][])[off #s_froms[#s_order[vector]] k] <= s_high
ensures storage: s_table > 0 /\ s_check > 0 /\ s_maxtable >= old s_maxtable /\ #len(s_table)[s_table] = s_maxtable /\ #len(s_check)[s_check] = s_maxtable /\ #brk(s_table) >= s_table + s_maxtable /\ #brk(s_check) >= s_check + s_maxtable
ensures room: 0 <= s_lowzero < s_maxtable /\ #s_check[s_maxtable - 1] = -1 /\ (forall l. 0 <= l < s_lowzero -> #s_check[l] <> -1)
loop 1
inv k: 1 <= k <= t
inv low: forall m. 0 <= m < k -> j + #heap(s_froms[][])[off from m] >= s_lowzero
var: t - k
loop 2
inv same: s_high = old s_high /\ s_lowzero = old s_lowzero
inv low: forall m. 0 <= m < t -> j + #heap(s_froms[][])[off from m] >= s_lowzero
inv st: s_table > 0 /\ s_check > 0 /\ s_maxtable >= old s_maxtable /\ #len(s_table)[s_table] = s_maxtable /\ #len(s_check)[s_check] = s_maxtable /\ #brk(s_table) >= s_table + s_maxtable /\ #brk(s_check) >= s_check + s_maxtable
inv old: forall l. 0 <= l < old s_maxtable -> #s_check[l] = (old #heap(s_check[]))[off (old s_check) l] /\ #s_table[l] = (old #heap(s_table[]))[off (old s_table) l]
inv new: forall l. old s_maxtable <= l < s_maxtable -> #s_check[l] = -1
loop 3
inv k: 0 <= k <= t /\ j <> 0 /\ (ok = 0 \/ ok = 1)
inv free: ok = 1 -> forall m. 0 <= m < k -> j + #heap(s_froms[][])[off from m] < s_maxtable - 1 /\ #s_check[j + #heap(s_froms[][])[off from m]] = -1
inv st: s_table > 0 /\ s_check > 0 /\ s_maxtable >= old s_maxtable /\ #len(s_table)[s_table] = s_maxtable /\ #len(s_check)[s_check] = s_maxtable /\ #brk(s_table) >= s_table + s_maxtable /\ #brk(s_check) >= s_check + s_maxtable
inv old: forall l. 0 <= l < old s_maxtable -> #s_check[l] = (old #heap(s_check[]))[off (old s_check) l] /\ #s_table[l] = (old #heap(s_table[]))[off (old s_table) l]
inv new: forall l. old s_maxtable <= l < s_maxtable -> #s_check[l] = -1
var: t - k
loop 4
inv new: newmax >= s_maxtable
var: loc - newmax
loop 5
inv l: s_maxtable <= l <= newmax /\ newmax > s_maxtable /\ newmax - 1 > loc
inv st: s_table > 0 /\ s_check > 0 /\ #len(s_table)[s_table] = newmax /\ #len(s_check)[s_check] = newmax /\ #brk(s_table) >= s_table + newmax /\ #brk(s_check) >= s_check + newmax
inv old: forall l. 0 <= l < old s_maxtable -> #s_check[l] = (old #heap(s_check[]))[off (old s_check) l] /\ #s_table[l] = (old #heap(s_table[]))[off (old s_table) l]
inv new: forall x. old s_maxtable <= x < l -> #s_check[x] = -1
inv free: ok = 1 -> forall m. 0 <= m < k -> j + #heap(s_froms[][])[off from m] < s_maxtable - 1 /\ #s_check[j + #heap(s_froms[][])[off from m]] = -1
var: newmax - l
loop 6
inv k: 0 <= k /\ (ok = 0 \/ ok = 1)
inv free: ok = 1 -> forall m. 0 <= m < t -> j + #heap(s_froms[][])[off from m] < s_maxtable - 1 /\ #s_check[j + #heap(s_froms[][])[off from m]] = -1
inv pos: ok = 1 -> k <= vector /\ forall m. 0 <= m < k -> #s_pos[m] <> j
var: vector - k
loop 7
inv k: 0 <= k <= t
inv stored: forall m. 0 <= m < k -> let f = #heap(s_froms[][])[off from m] in #s_check[j + f] = f /\ #s_table[j + f] = #heap(s_tos[][])[off to_ m] /\ j + f <= s_high
inv todo: forall m. k <= m < t -> #s_check[j + #heap(s_froms[][])[off from m]] = -1
inv high: s_high >= old s_high
inv kept: forall l. 0 <= l < old s_maxtable -> (old #heap(s_check[]))[off (old s_check) l] <> -1 -> #s_check[l] = (old #heap(s_check[]))[off (old s_check) l] /\ #s_table[l] = (old #heap(s_table[]))[off (old s_table) l]
inv only: forall l. 0 <= l < s_maxtable -> #s_check[l] <> -1 -> (l < old s_maxtable /\ (old #heap(s_check[]))[off (old s_check) l] <> -1) \/ exists m. 0 <= m < k /\ l = j + #heap(s_froms[][])[off from m]
inv last: #s_check[s_maxtable - 1] = -1
var: t - k
loop 8
inv low: 0 <= s_lowzero < s_maxtable /\ (forall l. 0 <= l < s_lowzero -> #s_check[l] <> -1)
var: s_maxtable - s_lowzero

== sort_actions files=byacc/output.c,byacc/main.c props=C05
opt sp off
singleton byacc_t:s_
requires n: s_nvectors >= 0
ensures range: 0 <= s_nentries <= s_nvectors /\ forall p. 0 <= p < s_nentries -> 0 <= #s_order[p] < s_nvectors /\ #s_tally[#s_order[p]] > 0
ensures once: forall p q. 0 <= p < q < s_nentries -> #s_order[p] <> #s_order[q]
ensures all: forall v. 0 <= v < s_nvectors -> #s_tally[v] > 0 -> exists p. 0 <= p < s_nentries /\ #s_order[p] = v
loop 1
inv i: 0 <= i <= s_nvectors /\ 0 <= s_nentries <= i
inv range: forall p. 0 <= p < s_nentries -> 0 <= #s_order[p] < i /\ #s_tally[#s_order[p]] > 0
inv once: forall p q. 0 <= p < q < s_nentries -> #s_order[p] <> #s_order[q]
inv all: forall v. 0 <= v < i -> #s_tally[v] > 0 -> exists p. 0 <= p < s_nentries /\ #s_order[p] = v
var: s_nvectors - i
loop 2
inv j: -1 <= j < s_nentries
var: j
loop 3
inv j: -1 <= j < s_nentries
var: j
loop 4
inv k: j <= k < s_nentries
inv low: forall x. 0 <= x <= k -> #s_order[x] = (#heap(s_order[]) at L4)[off s_order x]
inv same: k = s_nentries - 1 -> forall x. 0 <= x < s_nentries -> #s_order[x] = (#heap(s_order[]) at L4)[off s_order x]
inv up: forall x x1. x1 = x + 1 -> k < x < s_nentries -> #s_order[x1] = (#heap(s_order[]) at L4)[off s_order x]
var: k

== pack_table files=byacc/output.c,byacc/main.c props=C05
singleton byacc_t:s_
logic:
 (* the rows to pack: arbitrary *)
 function fr int int : int
 function to_ int int : int
 function tl int : int
requires n: 0 <= s_nentries <= s_nvectors /\ s_nstates >= 0
requires rows: forall i k. 0 <= i < s_nvectors -> 0 <= k < tl i -> #heap(s_froms[][])[off #s_froms[i] k] = fr i k /\ #heap(s_tos[][])[off #s_tos[i] k] = to_ i k
requires tally: forall i. 0 <= i < s_nvectors -> #s_tally[i] = tl i
requires valid: forall i k. 0 <= i < s_nvectors -> 0 <= k < tl i -> fr i k >= 0
requires distinct: forall i k l. 0 <= i < s_nvectors -> 0 <= k < l < tl i -> fr i k <> fr i l
requires order: forall p. 0 <= p < s_nentries -> 0 <= #s_order[p] < s_nvectors /\ tl #s_order[p] > 0
requires once: forall p q. 0 <= p < q < s_nentries -> #s_order[p] <> #s_order[q]
requires brk: #brk(s_table) > 0 /\ #brk(s_check) > 0 /\ #brk(s_base) > 0 /\ #brk(s_pos) > 0
ensures rows-found: forall p k. 0 <= p < s_nentries -> 0 <= k < tl #s_order[p] -> let l = #s_base[#s_order[p]] + fr #s_order[p] k in 0 <= l <= s_high /\ #s_check[l] = fr #s_order[p] k /\ #s_table[l] = to_ #s_order[p] k
ensures no-other-row: forall p c. 0 <= p < s_nentries -> c >= 0 -> 0 <= #s_base[#s_order[p]] + c < s_maxtable -> #s_check[#s_base[#s_order[p]] + c] = c -> exists k. 0 <= k < tl #s_order[p] /\ fr #s_order[p] k = c /\ #s_table[#s_base[#s_order[p]] + c] = to_ #s_order[p] k
ensures base: forall p. 0 <= p < s_nentries -> #s_base[#s_order[p]] <> 0
ensures rest: forall v. 0 <= v < s_nvectors -> (forall p. 0 <= p < s_nentries -> #s_order[p] <> v) -> #s_base[v] = 0
loop 1
inv i: 0 <= i <= s_maxtable
inv free: forall l. 0 <= l < i -> #s_check[l] = -1
var: s_maxtable - i
loop 2
inv i: 0 <= i <= s_nentries
inv st: s_table > 0 /\ s_check > 0 /\ s_maxtable > 1 /\ #len(s_table)[s_table] = s_maxtable /\ #len(s_check)[s_check] = s_maxtable /\ #brk(s_table) >= s_table + s_maxtable /\ #brk(s_check) >= s_check + s_maxtable
inv room: 0 <= s_lowzero < s_maxtable /\ #s_check[s_maxtable - 1] = -1 /\ (forall l. 0 <= l < s_lowzero -> #s_check[l] <> -1)
inv base: forall p. 0 <= p < i -> #s_base[#s_order[p]] = #s_pos[p] /\ #s_pos[p] <> 0
inv rest: forall v. 0 <= v < s_nvectors -> (forall p. 0 <= p < i -> #s_order[p] <> v) -> #s_base[v] = 0
inv rows: forall p k. 0 <= p < i -> 0 <= k < tl #s_order[p] -> let f = fr #s_order[p] k in 0 <= #s_pos[p] + f < s_maxtable - 1 /\ #s_pos[p] + f <= s_high /\ #s_check[#s_pos[p] + f] = f /\ #s_table[#s_pos[p] + f] = to_ #s_order[p] k
inv owner: forall l. 0 <= l < s_maxtable -> #s_check[l] <> -1 -> exists p k. 0 <= p < i /\ 0 <= k < tl #s_order[p] /\ l = #s_pos[p] + fr #s_order[p] k
inv same: forall p q. 0 <= p < i -> 0 <= q < i -> #s_pos[p] = #s_pos[q] -> tl #s_order[p] = tl #s_order[q] /\ forall k. 0 <= k < tl #s_order[p] -> fr #s_order[p] k = fr #s_order[q] k /\ to_ #s_order[p] k = to_ #s_order[q] k
var: s_nentries - i
loop 3
inv i: 0 <= i <= s_nvectors
var: s_nvectors - i

== default_goto files=byacc/output.c props=C05
singleton byacc_t:s_
logic:
 (* how many of the gotos m..k-1 lead to state s *)
 function cnt (ts: map int int) (p m s k: int) : int
 axiom cnt_0: forall ts p m s. cnt ts p m s m = 0
 axiom cnt_s: forall ts p m s k k1 [cnt ts p m s k, cnt ts p m s k1]. k1 = k + 1 -> k >= m -> cnt ts p m s k1 = cnt ts p m s k + (if ts[off p k] = s then 1 else 0)
requires map: 0 <= #s_goto_map[symbol] <= #s_goto_map[symbol + 1] /\ s_nstates > 0
requires states: forall i. #s_goto_map[symbol] <= i < #s_goto_map[symbol + 1] -> 0 <= #s_to_state[i] < s_nstates
ensures most: #s_goto_map[symbol] < #s_goto_map[symbol + 1] -> 0 <= result < s_nstates /\ (forall s. 0 <= s < s_nstates -> cnt #heap(s_to_state[]) s_to_state #s_goto_map[symbol] s #s_goto_map[symbol + 1] <= cnt #heap(s_to_state[]) s_to_state #s_goto_map[symbol] result #s_goto_map[symbol + 1])
ensures none: #s_goto_map[symbol] = #s_goto_map[symbol + 1] -> result = 0
loop 1
inv i: 0 <= i <= s_nstates
inv zero: forall s. 0 <= s < i -> #s_state_count[s] = 0
var: s_nstates - i
loop 2
inv i: m_ <= i <= n
inv cnt: forall s. 0 <= s < s_nstates -> #s_state_count[s] = cnt #heap(s_to_state[]) s_to_state m_ s i /\ #s_state_count[s] >= 0
var: n - i
loop 3
inv i: 0 <= i <= s_nstates /\ max >= 0
inv max: 0 <= default_state < s_nstates /\ (max = cnt #heap(s_to_state[]) s_to_state m_ default_state n \/ (max = 0 /\ default_state = 0)) /\ forall s. 0 <= s < i -> cnt #heap(s_to_state[]) s_to_state m_ s n <= max
var: s_nstates - i

== save_column files=byacc/output.c,byacc/main.c props=C05
singleton byacc_t:s_
logic:
 (* how many of the gotos m..k-1 do not lead to the default state d *)
 function cne (ts: map int int) (p m d k: int) : int
 axiom cne_0: forall ts p m d. cne ts p m d m = 0
 axiom cne_s: forall ts p m d k k1 [cne ts p m d k, cne ts p m d k1]. k1 = k + 1 -> k >= m -> cne ts p m d k1 = cne ts p m d k + (if ts[off p k] <> d then 1 else 0)
requires map: 0 <= #s_goto_map[symbol] <= #s_goto_map[symbol + 1]
requires brk: #brk(s_froms[]) > 0 /\ #brk(s_tos[]) > 0
ensures none: cne #heap(s_to_state[]) s_to_state #s_goto_map[symbol] default_state #s_goto_map[symbol + 1] = 0 -> (forall x. #heap(s_froms[])[x] = (old #heap(s_froms[]))[x] /\ #heap(s_tally[])[x] = (old #heap(s_tally[]))[x])
ensures count: cne #heap(s_to_state[]) s_to_state #s_goto_map[symbol] default_state #s_goto_map[symbol + 1] > 0 -> #s_tally[#s_symbol_value[symbol] + 3 * s_nstates] = cne #heap(s_to_state[]) s_to_state #s_goto_map[symbol] default_state #s_goto_map[symbol + 1]
ensures exact: forall j. #s_goto_map[symbol] <= j < #s_goto_map[symbol + 1] -> #s_to_state[j] <> default_state ->
   let q = cne #heap(s_to_state[]) s_to_state #s_goto_map[symbol] default_state j in let r = #s_symbol_value[symbol] + 3 * s_nstates in
   0 <= q < #s_tally[r] /\ #heap(s_froms[][])[off #s_froms[r] q] = #s_from_state[j] /\ #heap(s_tos[][])[off #s_tos[r] q] = #s_to_state[j]
ensures others: forall x. x <> off s_froms (#s_symbol_value[symbol] + 3 * s_nstates) -> #heap(s_froms[])[x] = (old #heap(s_froms[]))[x]
ensures others-t: forall x. x <> off s_tos (#s_symbol_value[symbol] + 3 * s_nstates) -> #heap(s_tos[])[x] = (old #heap(s_tos[]))[x]
ensures others-n: forall x. x <> off s_tally (#s_symbol_value[symbol] + 3 * s_nstates) -> #heap(s_tally[])[x] = (old #heap(s_tally[]))[x]
ensures old-rows: forall x. x < old #brk(s_froms[]) -> #heap(s_froms[][])[x] = (old #heap(s_froms[][]))[x]
ensures old-rows-t: forall x. x < old #brk(s_tos[]) -> #heap(s_tos[][])[x] = (old #heap(s_tos[][]))[x]
loop 1
inv i: m_ <= i <= n /\ count = cne #heap(s_to_state[]) s_to_state m_ default_state i /\ count >= 0
inv mono: forall j. m_ <= j < i -> 0 <= cne #heap(s_to_state[]) s_to_state m_ default_state j <= count /\ (#s_to_state[j] <> default_state -> cne #heap(s_to_state[]) s_to_state m_ default_state j < count)
var: n - i
loop 2
inv i: m_ <= i <= n /\ sp1 = off sp (cne #heap(s_to_state[]) s_to_state m_ default_state i) /\ sp2 = off #s_tos[symno] (cne #heap(s_to_state[]) s_to_state m_ default_state i) /\ (i < n -> cne #heap(s_to_state[]) s_to_state m_ default_state i >= 0)
inv done: forall j. m_ <= j < i -> #s_to_state[j] <> default_state -> #heap(s_froms[][])[off sp (cne #heap(s_to_state[]) s_to_state m_ default_state j)] = #s_from_state[j] /\ #heap(s_tos[][])[off #s_tos[symno] (cne #heap(s_to_state[]) s_to_state m_ default_state j)] = #s_to_state[j]
inv mono: forall j. m_ <= j < i -> #s_to_state[j] <> default_state -> cne #heap(s_to_state[]) s_to_state m_ default_state j < cne #heap(s_to_state[]) s_to_state m_ default_state i
inv old-rows: forall x. x < old #brk(s_froms[]) -> #heap(s_froms[][])[x] = (old #heap(s_froms[][]))[x]
inv old-rows-t: forall x. x < old #brk(s_tos[]) -> #heap(s_tos[][])[x] = (old #heap(s_tos[][]))[x]
var: n - i

== find_conflict_base files=byacc/output.c props=C12
singleton byacc_t:s_
requires base: 0 <= cbase <= s_nconflicts
ensures range: 0 <= result <= cbase
ensures same: forall j. 0 <= j < s_nconflicts - cbase -> #s_conflicts[result + j] = #s_conflicts[cbase + j]
loop 1
inv i: 0 <= i <= cbase
var: cbase - i
loop 2
inv j: 0 <= j <= s_nconflicts - cbase
inv same: forall x. 0 <= x < j -> #s_conflicts[i + x] = #s_conflicts[cbase + x]
var: s_nconflicts - cbase - j

== token_actions files=byacc/output.c,byacc/main.c props=C04,C05
singleton byacc_t:s_
use actlist.ActList
use rows.Rows
ghost let ghost ref gk = 0 in
requires shape: s_nstates >= 0 /\ s_ntokens > 0 /\ lists (fun s -> #s_parser[s]) #heap(s_parser[]->next) s_nstates
const s_backtrack 0
requires brk: #brk(s_froms[]) > 0 /\ #brk(s_tos[]) > 0
requires content: forall s k. 0 <= s < s_nstates -> 0 <= k < nl s -> tsym s k = #heap(s_parser[]->symbol)[nd s k] /\ tnum s k = #heap(s_parser[]->number)[nd s k] /\
  (act 1 s k <-> #heap(s_parser[]->suppressed)[nd s k] = 0 /\ #heap(s_parser[]->action_code)[nd s k] = 1) /\
  (act 2 s k <-> #heap(s_parser[]->suppressed)[nd s k] = 0 /\ #heap(s_parser[]->action_code)[nd s k] = 2 /\ #heap(s_parser[]->number)[nd s k] <> #s_defred[s])
requires rows: forall s. 0 <= s < s_nstates -> wf 1 s s_ntokens /\ wf 2 s s_ntokens
ensures shifts: forall s x. 0 <= s < s_nstates -> 0 <= x < s_ntokens -> row 1 s (nl s) x <> 0 -> #heap(s_froms[][])[off #s_froms[s] (rk 1 s (nl s) x)] = #s_symbol_value[x] /\ #heap(s_tos[][])[off #s_tos[s] (rk 1 s (nl s) x)] = row 1 s (nl s) x
ensures shift-count: forall s. 0 <= s < s_nstates -> nl s > 0 -> #s_tally[s] = rk 1 s (nl s) s_ntokens
ensures reductions: forall s x. 0 <= s < s_nstates -> 0 <= x < s_ntokens -> row 2 s (nl s) x <> 0 -> #heap(s_froms[][])[off #s_froms[s_nstates + s] (rk 2 s (nl s) x)] = #s_symbol_value[x] /\ #heap(s_tos[][])[off #s_tos[s_nstates + s] (rk 2 s (nl s) x)] = row 2 s (nl s) x - 2
ensures reduce-count: forall s. 0 <= s < s_nstates -> nl s > 0 -> #s_tally[s_nstates + s] = rk 2 s (nl s) s_ntokens
loop 1
inv i: 0 <= i <= s_nstates
inv brk: #brk(s_froms[]) > 0 /\ #brk(s_tos[]) > 0
inv shifts: forall s x. 0 <= s < i -> 0 <= x < s_ntokens -> row 1 s (nl s) x <> 0 -> #heap(s_froms[][])[off #s_froms[s] (rk 1 s (nl s) x)] = #s_symbol_value[x] /\ #heap(s_tos[][])[off #s_tos[s] (rk 1 s (nl s) x)] = row 1 s (nl s) x
   /\ off #s_froms[s] (rk 1 s (nl s) x) < #brk(s_froms[]) /\ off #s_tos[s] (rk 1 s (nl s) x) < #brk(s_tos[])
inv shift-count: forall s. 0 <= s < i -> nl s > 0 -> #s_tally[s] = rk 1 s (nl s) s_ntokens
inv reductions: forall s x. 0 <= s < i -> 0 <= x < s_ntokens -> row 2 s (nl s) x <> 0 -> #heap(s_froms[][])[off #s_froms[s_nstates + s] (rk 2 s (nl s) x)] = #s_symbol_value[x] /\ #heap(s_tos[][])[off #s_tos[s_nstates + s] (rk 2 s (nl s) x)] = row 2 s (nl s) x - 2
   /\ off #s_froms[s_nstates + s] (rk 2 s (nl s) x) < #brk(s_froms[]) /\ off #s_tos[s_nstates + s] (rk 2 s (nl s) x) < #brk(s_tos[])
inv reduce-count: forall s. 0 <= s < i -> nl s > 0 -> #s_tally[s_nstates + s] = rk 2 s (nl s) s_ntokens
var: s_nstates - i
loop 2
inv j: 0 <= j <= 3 * s_ntokens
inv zero: forall x. 0 <= x < j -> #actionrow[x] = 0
var: 3 * s_ntokens - j
loop 3
before: gk <- 0
inv cur: 0 <= gk <= nl i /\ p = nd i gk
inv counts: shiftcount = cn 1 i gk /\ reducecount = cn 2 i gk
inv shift: forall x. 0 <= x < s_ntokens -> #actionrow[x] = row 1 i gk x
inv reduce: forall x x1. 0 <= x < s_ntokens -> x1 = x + s_ntokens -> #actionrow[x1] = row 2 i gk x
var: nl i - gk
after_body: gk <- gk + 1
after: assert { shiftcount = rk 1 i (nl i) s_ntokens /\ reducecount = rk 2 i (nl i) s_ntokens };
loop 4
inv j: 0 <= j <= s_ntokens /\ r = off #s_froms[i] (rk 1 i (nl i) j) /\ s = off #s_tos[i] (rk 1 i (nl i) j)
inv done: forall x. 0 <= x < j -> row 1 i (nl i) x <> 0 -> #heap(s_froms[][])[off #s_froms[i] (rk 1 i (nl i) x)] = #s_symbol_value[x] /\ #heap(s_tos[][])[off #s_tos[i] (rk 1 i (nl i) x)] = row 1 i (nl i) x
inv kept: (forall x. x < (#brk(s_froms[]) at L2) -> #heap(s_froms[][])[x] = (#heap(s_froms[][]) at L2)[x]) /\ (forall x. x < (#brk(s_tos[]) at L2) -> #heap(s_tos[][])[x] = (#heap(s_tos[][]) at L2)[x])
var: s_ntokens - j
loop 5
inv j: 0 <= j <= s_ntokens /\ r = off #s_froms[s_nstates + i] (rk 2 i (nl i) j) /\ s = off #s_tos[s_nstates + i] (rk 2 i (nl i) j)
inv done: forall x. 0 <= x < j -> row 2 i (nl i) x <> 0 -> #heap(s_froms[][])[off #s_froms[s_nstates + i] (rk 2 i (nl i) x)] = #s_symbol_value[x] /\ #heap(s_tos[][])[off #s_tos[s_nstates + i] (rk 2 i (nl i) x)] = row 2 i (nl i) x - 2
inv kept: (forall x. x < (#brk(s_froms[]) at L2) -> #heap(s_froms[][])[x] = (#heap(s_froms[][]) at L2)[x]) /\ (forall x. x < (#brk(s_tos[]) at L2) -> #heap(s_tos[][])[x] = (#heap(s_tos[][]) at L2)[x])
inv below: forall x. 0 <= x < s_ntokens -> row 1 i (nl i) x <> 0 -> off #s_froms[i] (rk 1 i (nl i) x) < #s_froms[s_nstates + i] /\ off #s_tos[i] (rk 1 i (nl i) x) < #s_tos[s_nstates + i]
inv shifts: forall x. 0 <= x < s_ntokens -> row 1 i (nl i) x <> 0 -> #heap(s_froms[][])[off #s_froms[i] (rk 1 i (nl i) x)] = #s_symbol_value[x] /\ #heap(s_tos[][])[off #s_tos[i] (rk 1 i (nl i) x)] = row 1 i (nl i) x
var: s_ntokens - j
