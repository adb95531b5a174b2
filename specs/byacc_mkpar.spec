== remove_conflicts files=byacc/mkpar.c props=C03
singleton byacc_t:s_
use actlist.ActList
use actlist.Resolve
ghost let ghost ref gk = 0 in
requires shape: s_nstates >= 0 /\ lists (fun s -> #s_parser[s]) #heap(s_parser[]->next) s_nstates
requires content: forall s k. 0 <= s < s_nstates -> 0 <= k < nl s -> asym s k = #heap(s_parser[]->symbol)[nd s k] /\ aprec s k = #heap(s_parser[]->prec)[nd s k]
   /\ aassoc s k = #heap(s_parser[]->assoc)[nd s k] /\ acode s k = #heap(s_parser[]->action_code)[nd s k]
requires symbols: forall s k. 0 <= s < s_nstates -> 0 <= k < nl s -> asym s k >= 0
requires plain: s_backtrack = 0 /\ final = s_final_state /\ (lemonprec <-> s_lemon_prec_flag <> 0)
requires fresh: forall s k. 0 <= s < s_nstates -> 0 <= k < nl s -> #heap(s_parser[]->suppressed)[nd s k] = 0
ensures resolved: forall s k. 0 <= s < s_nstates -> 0 <= k < nl s -> supp s k (nl s) #heap(s_parser[]->suppressed)[nd s k]
ensures counts: forall s. 0 <= s < s_nstates -> #s_SRconflicts[s] = nsr s (nl s) /\ #s_RRconflicts[s] = nrr s (nl s)
ensures totals: s_SRtotal = tsr s_nstates /\ s_RRtotal = trr s_nstates
loop 1
inv range: 0 <= i <= s_nstates
inv done: forall s k. 0 <= s < i -> 0 <= k < nl s -> supp s k (nl s) #heap(s_parser[]->suppressed)[nd s k]
inv rest: forall s k. i <= s < s_nstates -> 0 <= k < nl s -> #heap(s_parser[]->suppressed)[nd s k] = 0
inv counts: forall s. 0 <= s < i -> #s_SRconflicts[s] = nsr s (nl s) /\ #s_RRconflicts[s] = nrr s (nl s)
inv totals: s_SRtotal = tsr i /\ s_RRtotal = trr i
var: s_nstates - i
loop 2
before: gk <- 0
inv cur: 0 <= gk <= nl i /\ p = nd i gk
inv pref: (prf i gk < 0 /\ symbol = -1 /\ prf i gk = -1) \/ (0 <= prf i gk < gk /\ pref = nd i (prf i gk) /\ symbol = asym i (prf i gk) /\ not (isacc i (prf i gk)))
inv counts: s_fs8_SRcount = nsr i gk /\ s_fs5_RRcount = nrr i gk
inv done: forall k. 0 <= k < gk -> supp i k gk #heap(s_parser[]->suppressed)[nd i k]
inv rest: forall k. gk <= k < nl i -> #heap(s_parser[]->suppressed)[nd i k] = 0
inv others: forall s k. 0 <= s < s_nstates -> s <> i -> 0 <= k < nl s -> #heap(s_parser[]->suppressed)[nd s k] = (#heap(s_parser[]->suppressed) at L2)[nd s k]
var: nl i - gk
after_body: gk <- gk + 1

== sole_reduction files=byacc/mkpar.c props=C04
singleton byacc_t:s_
use actlist.ActList
ghost let ghost ref gk = 0 in
requires list: 0 <= stateno < s_nstates /\ lists (fun s -> #s_parser[s]) #heap(s_parser[]->next) s_nstates
requires plain: s_backtrack = 0
requires rules: forall k. 0 <= k < nl stateno -> #heap(s_parser[]->number)[nd stateno k] > 0 \/ #heap(s_parser[]->action_code)[nd stateno k] <> 2
ensures sound: result <> 0 -> (forall k. 0 <= k < nl stateno -> #heap(s_parser[]->suppressed)[nd stateno k] = 0 ->
    #heap(s_parser[]->action_code)[nd stateno k] <> 1 /\ (#heap(s_parser[]->action_code)[nd stateno k] = 2 -> #heap(s_parser[]->number)[nd stateno k] = result)) /\
    (exists k. 0 <= k < nl stateno /\ #heap(s_parser[]->suppressed)[nd stateno k] = 0 /\ #heap(s_parser[]->action_code)[nd stateno k] = 2 /\ #heap(s_parser[]->symbol)[nd stateno k] <> 1)
ensures complete: result = 0 -> (exists k. 0 <= k < nl stateno /\ #heap(s_parser[]->suppressed)[nd stateno k] = 0 /\ #heap(s_parser[]->action_code)[nd stateno k] = 1) \/
    (exists j k. 0 <= j < k < nl stateno /\ #heap(s_parser[]->suppressed)[nd stateno k] = 0 /\ #heap(s_parser[]->action_code)[nd stateno k] = 2 /\
        #heap(s_parser[]->suppressed)[nd stateno j] = 0 /\ #heap(s_parser[]->action_code)[nd stateno j] = 2 /\ #heap(s_parser[]->number)[nd stateno j] <> #heap(s_parser[]->number)[nd stateno k]) \/
    (forall k. 0 <= k < nl stateno -> #heap(s_parser[]->suppressed)[nd stateno k] = 0 -> #heap(s_parser[]->action_code)[nd stateno k] = 2 -> #heap(s_parser[]->symbol)[nd stateno k] = 1)
loop 1
before: gk <- 0
inv cur: 0 <= gk <= nl stateno /\ p = nd stateno gk /\ count >= 0 /\ ruleno >= 0
inv noshift: forall k. 0 <= k < gk -> #heap(s_parser[]->suppressed)[nd stateno k] = 0 -> #heap(s_parser[]->action_code)[nd stateno k] <> 1
inv one: forall k. 0 <= k < gk -> #heap(s_parser[]->suppressed)[nd stateno k] = 0 -> #heap(s_parser[]->action_code)[nd stateno k] = 2 -> #heap(s_parser[]->number)[nd stateno k] = ruleno
inv some: ruleno > 0 -> exists k. 0 <= k < gk /\ #heap(s_parser[]->suppressed)[nd stateno k] = 0 /\ #heap(s_parser[]->action_code)[nd stateno k] = 2
inv count: count > 0 -> exists k. 0 <= k < gk /\ #heap(s_parser[]->suppressed)[nd stateno k] = 0 /\ #heap(s_parser[]->action_code)[nd stateno k] = 2 /\ #heap(s_parser[]->symbol)[nd stateno k] <> 1
inv zero: count = 0 -> forall k. 0 <= k < gk -> #heap(s_parser[]->suppressed)[nd stateno k] = 0 -> #heap(s_parser[]->action_code)[nd stateno k] = 2 -> #heap(s_parser[]->symbol)[nd stateno k] = 1
var: nl stateno - gk
after_body: gk <- gk + 1

== defreds files=byacc/mkpar.c props=C04
singleton byacc_t:s_
use actlist.ActList
requires lists: s_nstates >= 0 /\ lists (fun s -> #s_parser[s]) #heap(s_parser[]->next) s_nstates
requires plain: s_backtrack = 0
requires rules: forall s k. 0 <= s < s_nstates -> 0 <= k < nl s -> #heap(s_parser[]->number)[nd s k] > 0 \/ #heap(s_parser[]->action_code)[nd s k] <> 2
ensures default-is-sole: forall s. 0 <= s < s_nstates -> #s_defred[s] <> 0 -> forall k. 0 <= k < nl s -> #heap(s_parser[]->suppressed)[nd s k] = 0 ->
    #heap(s_parser[]->action_code)[nd s k] <> 1 /\ (#heap(s_parser[]->action_code)[nd s k] = 2 -> #heap(s_parser[]->number)[nd s k] = #s_defred[s])
ensures default-exists: forall s. 0 <= s < s_nstates -> #s_defred[s] <> 0 ->
    exists k. 0 <= k < nl s /\ #heap(s_parser[]->suppressed)[nd s k] = 0 /\ #heap(s_parser[]->action_code)[nd s k] = 2
loop 1
inv range: 0 <= i <= s_nstates
inv sole: forall s. 0 <= s < i -> #s_defred[s] <> 0 -> forall k. 0 <= k < nl s -> #heap(s_parser[]->suppressed)[nd s k] = 0 ->
    #heap(s_parser[]->action_code)[nd s k] <> 1 /\ (#heap(s_parser[]->action_code)[nd s k] = 2 -> #heap(s_parser[]->number)[nd s k] = #s_defred[s])
inv exists: forall s. 0 <= s < i -> #s_defred[s] <> 0 ->
    exists k. 0 <= k < nl s /\ #heap(s_parser[]->suppressed)[nd s k] = 0 /\ #heap(s_parser[]->action_code)[nd s k] = 2
var: s_nstates - i

== unused_rules files=byacc/mkpar.c props=C11
singleton byacc_t:s_
use actlist.ActList
ghost let ghost ref gk = 0 in
logic:
 function unused (m: map int int) (p n: int) : int
 axiom unused_3: forall m p. unused m p 3 = 0
 axiom unused_s: forall m p n n1 [unused m p n, unused m p n1]. n >= 3 -> n1 = n + 1 -> unused m p n1 = unused m p n + (if m[off p n] = 0 then 1 else 0)
requires lists: s_nstates >= 0 /\ s_nrules >= 3 /\ lists (fun s -> #s_parser[s]) #heap(s_parser[]->next) s_nstates
requires plain: s_backtrack = 0
ensures used: forall s k. 0 <= s < s_nstates -> 0 <= k < nl s -> #heap(s_parser[]->suppressed)[nd s k] = 0 -> #heap(s_parser[]->action_code)[nd s k] = 2 ->
    #s_rules_used[#heap(s_parser[]->number)[nd s k]] <> 0
ensures only: forall r. 0 <= r < s_nrules -> #s_rules_used[r] <> 0 -> exists s k. 0 <= s < s_nstates /\ 0 <= k < nl s /\ #heap(s_parser[]->suppressed)[nd s k] = 0 /\
    #heap(s_parser[]->action_code)[nd s k] = 2 /\ #heap(s_parser[]->number)[nd s k] = r
ensures count: s_nunused = unused #heap(s_rules_used[]) s_rules_used s_nrules
loop 1
inv range: 0 <= i <= s_nrules
inv zero: forall r. 0 <= r < i -> #s_rules_used[r] = 0
var: s_nrules - i
loop 2
inv range: 0 <= i <= s_nstates
inv used: forall s k. 0 <= s < i -> 0 <= k < nl s -> #heap(s_parser[]->suppressed)[nd s k] = 0 -> #heap(s_parser[]->action_code)[nd s k] = 2 ->
    #s_rules_used[#heap(s_parser[]->number)[nd s k]] <> 0
inv only: forall r. 0 <= r < s_nrules -> #s_rules_used[r] <> 0 -> exists s k. 0 <= s < i /\ 0 <= k < nl s /\ #heap(s_parser[]->suppressed)[nd s k] = 0 /\
    #heap(s_parser[]->action_code)[nd s k] = 2 /\ #heap(s_parser[]->number)[nd s k] = r
var: s_nstates - i
loop 3
before: gk <- 0
inv cur: 0 <= gk <= nl i /\ p = nd i gk
inv here: forall k. 0 <= k < gk -> #heap(s_parser[]->suppressed)[nd i k] = 0 -> #heap(s_parser[]->action_code)[nd i k] = 2 -> #s_rules_used[#heap(s_parser[]->number)[nd i k]] <> 0
inv used: forall s k. 0 <= s < i -> 0 <= k < nl s -> #heap(s_parser[]->suppressed)[nd s k] = 0 -> #heap(s_parser[]->action_code)[nd s k] = 2 ->
    #s_rules_used[#heap(s_parser[]->number)[nd s k]] <> 0
inv only: forall r. 0 <= r < s_nrules -> #s_rules_used[r] <> 0 -> exists s k. 0 <= s <= i /\ 0 <= k < (if s < i then nl s else gk) /\ #heap(s_parser[]->suppressed)[nd s k] = 0 /\
    #heap(s_parser[]->action_code)[nd s k] = 2 /\ #heap(s_parser[]->number)[nd s k] = r
var: nl i - gk
after_body: gk <- gk + 1
loop 4
inv range: 3 <= i <= s_nrules
inv count: s_nunused = unused #heap(s_rules_used[]) s_rules_used i
var: s_nrules - i

== total_conflicts files=byacc/mkpar.c props=C03
singleton byacc_t:s_
ensures exit-status: s_exit_code = (if (s_SRexpect >= 0 /\ s_SRtotal <> s_SRexpect) \/ (s_RRexpect >= 0 /\ s_RRtotal <> s_RRexpect) then 1 else old s_exit_code)

== find_final_state files=byacc/mkpar.c props=C03
singleton byacc_t:s_
logic:
 constant sh : int
requires shifts: sh >= 0  /\ (#s_shift_table[0] <> 0 -> sh < #s_shift_table[0]->nshifts) /\ #s_accessing_symbol[#s_shift_table[0]->shift[sh]] = #s_ritem[1]
requires unique: forall i. 0 <= i < #s_shift_table[0]->nshifts -> #s_accessing_symbol[#s_shift_table[0]->shift[i]] = #s_ritem[1] -> i = sh
ensures goal-state: #s_shift_table[0] <> 0 -> s_final_state = #s_shift_table[0]->shift[sh]
loop 1
inv range: sh <= i < #s_shift_table[0]->nshifts /\ to_state2 = #s_shift_table[0]->shift /\ goal_ = #s_ritem[1]
var: i + 1

== add_reduce files=byacc/mkpar.c props=C03
singleton byacc_t:s_
logic:
 function n0 int : int
 constant len : int
 (* order of a state's actions: by symbol, the shift before reductions, reductions by rule *)
 predicate before (sy1 ac1 nu1 sy2 ac2 nu2: int) = sy1 < sy2 \/ (sy1 = sy2 /\ (ac1 < ac2 \/ (ac1 = ac2 /\ nu1 < nu2)))
ghost let ghost ref gi = 0 in
requires list: len >= 0 /\ actions = n0 0 /\ n0 len = 0 /\ (forall k. 0 <= k < len -> n0 k <> 0 /\ n0 k < #brk(actions) /\ #heap(actions->next)[n0 k] = n0 (k + 1)) 
requires distinct: (forall j k. 0 <= j < k < len -> n0 j <> n0 k) /\ #brk(actions) > 0
requires codes: forall k. 0 <= k < len -> #heap(actions->action_code)[n0 k] = 1 \/ #heap(actions->action_code)[n0 k] = 2
requires sorted: forall j k. 0 <= j < k < len -> before #heap(actions->symbol)[n0 j] #heap(actions->action_code)[n0 j] #heap(actions->number)[n0 j] #heap(actions->symbol)[n0 k] #heap(actions->action_code)[n0 k] #heap(actions->number)[n0 k]
requires new: forall k. 0 <= k < len -> #heap(actions->symbol)[n0 k] = symbol -> #heap(actions->action_code)[n0 k] = 2 -> #heap(actions->number)[n0 k] <> ruleno
ensures inserted: exists i t. 0 <= i <= len /\ t >= old #brk(actions) /\ (if i = 0 then result = t else result = n0 0 /\ #heap(actions->next)[n0 (i - 1)] = t) /\ #heap(actions->next)[t] = n0 i /\
   #heap(actions->symbol)[t] = symbol /\ #heap(actions->action_code)[t] = 2 /\ #heap(actions->number)[t] = ruleno /\ #heap(actions->prec)[t] = #s_rprec[ruleno] /\ #heap(actions->assoc)[t] = #s_rassoc[ruleno] /\ #heap(actions->suppressed)[t] = 0 /\
   (forall k. 0 <= k < len -> k <> i - 1 -> #heap(actions->next)[n0 k] = n0 (k + 1)) /\
   (forall k. 0 <= k < i -> before #heap(actions->symbol)[n0 k] #heap(actions->action_code)[n0 k] #heap(actions->number)[n0 k] symbol 2 ruleno) /\
   (forall k. i <= k < len -> before symbol 2 ruleno #heap(actions->symbol)[n0 k] #heap(actions->action_code)[n0 k] #heap(actions->number)[n0 k])
ensures others-kept: forall x. x < old #brk(actions) -> #heap(actions->symbol)[x] = (old #heap(actions->symbol))[x] /\ #heap(actions->number)[x] = (old #heap(actions->number))[x] /\
   #heap(actions->prec)[x] = (old #heap(actions->prec))[x] /\ #heap(actions->assoc)[x] = (old #heap(actions->assoc))[x] /\ #heap(actions->action_code)[x] = (old #heap(actions->action_code))[x] /\ #heap(actions->suppressed)[x] = (old #heap(actions->suppressed))[x]
exit: assert { 0 <= gi <= len /\ temp >= (old #brk(actions)) /\ (if gi = 0 then actions = temp else actions = n0 0 /\ #heap(actions->next)[n0 (gi - 1)] = temp) /\ #heap(actions->next)[temp] = n0 gi };
  assert { #heap(actions->symbol)[temp] = symbol /\ #heap(actions->action_code)[temp] = 2 /\ #heap(actions->number)[temp] = ruleno /\ #heap(actions->prec)[temp] = #s_rprec[ruleno] /\ #heap(actions->assoc)[temp] = #s_rassoc[ruleno] /\ #heap(actions->suppressed)[temp] = 0 };
  assert { forall k. 0 <= k < len -> k <> gi - 1 -> #heap(actions->next)[n0 k] = n0 (k + 1) };
  assert { forall k. 0 <= k < gi -> before #heap(actions->symbol)[n0 k] #heap(actions->action_code)[n0 k] #heap(actions->number)[n0 k] symbol 2 ruleno };
  assert { forall k. gi <= k < len -> before symbol 2 ruleno #heap(actions->symbol)[n0 k] #heap(actions->action_code)[n0 k] #heap(actions->number)[n0 k] }
loop 1
before: gi <- 0
inv cur: 0 <= gi <= len /\ next = n0 gi /\ (if gi = 0 then prev = 0 else prev = n0 (gi - 1))
inv below: forall k. 0 <= k < gi -> #heap(actions->symbol)[n0 k] < symbol
var: len - gi
after_body: gi <- gi + 1
loop 2
inv cur: 0 <= gi <= len /\ next = n0 gi /\ (if gi = 0 then prev = 0 else prev = n0 (gi - 1))
inv below: forall k. 0 <= k < gi -> before #heap(actions->symbol)[n0 k] #heap(actions->action_code)[n0 k] #heap(actions->number)[n0 k] symbol 2 ruleno
inv next: gi < len -> #heap(actions->symbol)[n0 gi] >= symbol
var: len - gi
after_body: gi <- gi + 1
loop 3
inv cur: 0 <= gi <= len /\ next = n0 gi /\ (if gi = 0 then prev = 0 else prev = n0 (gi - 1))
inv below: forall k. 0 <= k < gi -> before #heap(actions->symbol)[n0 k] #heap(actions->action_code)[n0 k] #heap(actions->number)[n0 k] symbol 2 ruleno
inv next: gi < len -> #heap(actions->symbol)[n0 gi] >= symbol /\ (#heap(actions->symbol)[n0 gi] = symbol -> #heap(actions->action_code)[n0 gi] = 2)
var: len - gi
after_body: gi <- gi + 1
