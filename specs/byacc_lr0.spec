== save_shifts files=byacc/lr0.c,byacc/main.c props=C01
singleton byacc_t:s_
ghost let ghost ref gk = 0 in
requires n: s_fs4_nshifts >= 1 /\ #brk(s_fs4_last_shift) > 0 /\ #brk(s_fs4_last_shift->shift) > 0
requires old-list: s_fs4_last_shift < #brk(s_fs4_last_shift) /\ s_first_shift < #brk(s_fs4_last_shift)
ensures copied: forall i. 0 <= i < s_fs4_nshifts -> #s_fs4_last_shift->shift[i] = #s_fs4_shiftset[i]
ensures header: #s_fs4_last_shift->nshifts = s_fs4_nshifts /\ #s_fs4_last_shift->number = #s_fs4_this_state->number /\ #s_fs4_last_shift->next = 0
ensures appended: s_fs4_last_shift >= old #brk(s_fs4_last_shift) /\ (if old s_fs4_last_shift = 0 then s_first_shift = s_fs4_last_shift else s_first_shift = old s_first_shift /\ #heap(s_fs4_last_shift->next)[old s_fs4_last_shift] = s_fs4_last_shift)
ensures frame: forall x. x < old #brk(s_fs4_last_shift) -> #heap(s_fs4_last_shift->nshifts)[x] = (old #heap(s_fs4_last_shift->nshifts))[x] /\ #heap(s_fs4_last_shift->number)[x] = (old #heap(s_fs4_last_shift->number))[x] /\
   #heap(s_fs4_last_shift->shift)[x] = (old #heap(s_fs4_last_shift->shift))[x]
ensures frame-arrays: forall x. x < old #brk(s_fs4_last_shift->shift) -> #heap(s_fs4_last_shift->shift[])[x] = (old #heap(s_fs4_last_shift->shift[]))[x]
ensures frame-next: forall x. x < old #brk(s_fs4_last_shift) -> x <> old s_fs4_last_shift -> #heap(s_fs4_last_shift->next)[x] = (old #heap(s_fs4_last_shift->next))[x]
loop 1
before: gk <- 0
inv pos: 0 <= gk <= s_fs4_nshifts /\ sp1 = off s_fs4_shiftset gk /\ sp2 = off #p->shift gk /\ send = off s_fs4_shiftset s_fs4_nshifts
inv done: forall i. 0 <= i < gk -> #p->shift[i] = #s_fs4_shiftset[i]
inv frame: forall x. x < old #brk(p->shift) -> #heap(p->shift[])[x] = (old #heap(p->shift[]))[x]
var: send - sp1
after_body: gk <- gk + 1

== save_reductions files=byacc/lr0.c,byacc/main.c props=C01
singleton byacc_t:s_
ghost let ghost ref gk = 0 in
logic:
 function nred (ri it: map int int) (pri pit k: int) : int
 axiom nred_0: forall ri it pri pit. nred ri it pri pit 0 = 0
 axiom nred_s: forall ri it pri pit k k1 [nred ri it pri pit k, nred ri it pri pit k1]. k1 = k + 1 -> k >= 0 -> nred ri it pri pit k1 = nred ri it pri pit k + (if ri[off pri (it[off pit k])] < 0 then 1 else 0)
requires n: s_itemset <= s_itemsetend /\ #brk(s_fs4_last_reduction) > 0 /\ #brk(s_fs4_last_reduction->rules) > 0
requires old-list: s_fs4_last_reduction < #brk(s_fs4_last_reduction)
ensures none: nred #heap(s_ritem[]) #heap(s_itemset[]) s_ritem s_itemset (s_itemsetend - s_itemset) = 0 -> s_fs4_last_reduction = old s_fs4_last_reduction
ensures some: nred #heap(s_ritem[]) #heap(s_itemset[]) s_ritem s_itemset (s_itemsetend - s_itemset) > 0 ->
   #s_fs4_last_reduction->nreds = nred #heap(s_ritem[]) #heap(s_itemset[]) s_ritem s_itemset (s_itemsetend - s_itemset) /\ #s_fs4_last_reduction->number = #s_fs4_this_state->number /\ #s_fs4_last_reduction->next = 0 /\
   (if old s_fs4_last_reduction = 0 then s_first_reduction = s_fs4_last_reduction else #heap(s_fs4_last_reduction->next)[old s_fs4_last_reduction] = s_fs4_last_reduction)
ensures rules: nred #heap(s_ritem[]) #heap(s_itemset[]) s_ritem s_itemset (s_itemsetend - s_itemset) > 0 -> forall j. 0 <= j < s_itemsetend - s_itemset -> #s_ritem[#s_itemset[j]] < 0 ->
   #s_fs4_last_reduction->rules[nred #heap(s_ritem[]) #heap(s_itemset[]) s_ritem s_itemset j] = - #s_ritem[#s_itemset[j]]
ensures frame: forall x. x < old #brk(s_fs4_last_reduction->rules) -> #heap(s_fs4_last_reduction->rules[])[x] = (old #heap(s_fs4_last_reduction->rules[]))[x]
loop 1
before: gk <- 0
inv pos: 0 <= gk <= s_itemsetend - s_itemset /\ isp = off s_itemset gk /\ count = nred #heap(s_ritem[]) #heap(s_itemset[]) s_ritem s_itemset gk /\ count >= 0
inv done: forall j. 0 <= j < gk -> nred #heap(s_ritem[]) #heap(s_itemset[]) s_ritem s_itemset j >= 0 /\ (#s_ritem[#s_itemset[j]] < 0 -> nred #heap(s_ritem[]) #heap(s_itemset[]) s_ritem s_itemset j < count /\
   #s_fs4_redset[nred #heap(s_ritem[]) #heap(s_itemset[]) s_ritem s_itemset j] = - #s_ritem[#s_itemset[j]])
var: s_itemsetend - isp
after_body: gk <- gk + 1
loop 2
before: gk <- 0
inv pos: 0 <= gk <= count /\ rp1 = off s_fs4_redset gk /\ rp2 = off #p->rules gk /\ rend = off s_fs4_redset count
inv done: forall i. 0 <= i < gk -> #p->rules[i] = #s_fs4_redset[i]
inv frame: forall x. x < old #brk(p->rules) -> #heap(p->rules[])[x] = (old #heap(p->rules[]))[x]
var: rend - rp1
after_body: gk <- gk + 1

== new_state files=byacc/lr0.c,byacc/main.c props=C01
singleton byacc_t:s_
ghost let ghost ref gk = 0 in
requires kernel: #s_fs4_kernel_base[symbol] < #s_fs4_kernel_end[symbol]
requires brk: #brk(s_fs4_last_state) > 0 /\ #brk(s_fs4_last_state->items) > 0 /\ 0 < s_fs4_last_state < #brk(s_fs4_last_state)
ensures fresh: result >= old #brk(s_fs4_last_state) /\ result > 0 /\ result < #brk(s_fs4_last_state) /\ #brk(s_fs4_last_state) >= old #brk(s_fs4_last_state) /\ #brk(s_fs4_last_state->items) >= old #brk(s_fs4_last_state->items)
ensures number: #result->number = old s_nstates /\ s_nstates = old s_nstates + 1 /\ #result->accessing_symbol = symbol /\ #result->next = 0 /\ #result->link = 0
ensures size: #result->nitems = #s_fs4_kernel_end[symbol] - #s_fs4_kernel_base[symbol]
ensures kernel: forall i. 0 <= i < #result->nitems -> #result->items[i] = #heap(s_fs4_kernel_base[][])[off #s_fs4_kernel_base[symbol] i]
ensures appended: #heap(s_fs4_last_state->next)[old s_fs4_last_state] = result /\ s_fs4_last_state = result
ensures frame: forall x. x < old #brk(s_fs4_last_state) -> #heap(result->number)[x] = (old #heap(result->number))[x] /\ #heap(result->nitems)[x] = (old #heap(result->nitems))[x] /\ #heap(result->link)[x] = (old #heap(result->link))[x] /\
   #heap(result->items)[x] = (old #heap(result->items))[x] /\ #heap(result->accessing_symbol)[x] = (old #heap(result->accessing_symbol))[x] /\ (x <> old s_fs4_last_state -> #heap(result->next)[x] = (old #heap(result->next))[x])
ensures frame-items: forall x. x < old #brk(s_fs4_last_state->items) -> #heap(result->items[])[x] = (old #heap(result->items[]))[x]
ensures items-in: #result->items >= old #brk(s_fs4_last_state->items) /\ #result->items + #result->nitems <= #brk(s_fs4_last_state->items)
loop 1
before: gk <- 0
inv pos: 0 <= gk /\ gk <= n /\ isp1 = off #s_fs4_kernel_base[symbol] gk /\ isp2 = off #p->items gk /\ iend = off #s_fs4_kernel_base[symbol] n /\ n = #p->nitems
inv done: forall i. 0 <= i < gk -> #p->items[i] = #heap(s_fs4_kernel_base[][])[off #s_fs4_kernel_base[symbol] i]
inv frame: forall x. x < old #brk(p->items) -> #heap(p->items[])[x] = (old #heap(p->items[]))[x]
var: iend - isp1
after_body: gk <- gk + 1

== get_state files=byacc/lr0.c,byacc/main.c props=C01
singleton byacc_t:s_
ghost let ghost ref gk = 0 in
ghost let ghost ref gi = 0 in
logic:
 (* the states chained under one key: arbitrary *)
 function ch int : int
 constant cl : int
 predicate same (m1: map int int) (p1: int) (m2: map int int) (p2 n: int)
 axiom same_def: forall m1 p1 m2 p2 n [same m1 p1 m2 p2 n]. same m1 p1 m2 p2 n <-> forall i. 0 <= i < n -> m1[off p1 i] = m2[off p2 i]
requires kernel: #s_fs4_kernel_base[symbol] < #s_fs4_kernel_end[symbol]
requires brk: #brk(s_fs4_last_state) > 0 /\ #brk(s_fs4_last_state->items) > 0 /\ 0 < s_fs4_last_state < #brk(s_fs4_last_state)
requires key: 0 <= #heap(s_fs4_kernel_base[][])[off #s_fs4_kernel_base[symbol] 0] < s_nitems
requires chain: cl >= 0 /\ #s_fs4_state_set[#heap(s_fs4_kernel_base[][])[off #s_fs4_kernel_base[symbol] 0]] = ch 0 /\ ch cl = 0 /\ (forall k. 0 <= k < cl -> 0 < ch k < #brk(s_fs4_last_state) /\ #heap(s_fs4_last_state->link)[ch k] = ch (k + 1) /\
   #heap(s_fs4_last_state->items)[ch k] + #heap(s_fs4_last_state->nitems)[ch k] <= #brk(s_fs4_last_state->items))
ensures found: (exists k. 0 <= k < cl /\ #heap(s_fs4_last_state->nitems)[ch k] = #s_fs4_kernel_end[symbol] - #s_fs4_kernel_base[symbol] /\
     same #heap(s_fs4_last_state->items[]) #heap(s_fs4_last_state->items)[ch k] #heap(s_fs4_kernel_base[][]) #s_fs4_kernel_base[symbol] (#s_fs4_kernel_end[symbol] - #s_fs4_kernel_base[symbol]) /\
     result = #heap(s_fs4_last_state->number)[ch k] /\ s_nstates = old s_nstates)
   \/ (result = old s_nstates /\ s_nstates = old s_nstates + 1)
ensures new-only-if-absent: s_nstates <> old s_nstates -> forall k. 0 <= k < cl -> #heap(s_fs4_last_state->nitems)[ch k] = #s_fs4_kernel_end[symbol] - #s_fs4_kernel_base[symbol] ->
     not (same #heap(s_fs4_last_state->items[]) #heap(s_fs4_last_state->items)[ch k] #heap(s_fs4_kernel_base[][]) #s_fs4_kernel_base[symbol] (#s_fs4_kernel_end[symbol] - #s_fs4_kernel_base[symbol]))
ensures new-linked: s_nstates <> old s_nstates -> (if cl = 0 then #s_fs4_state_set[#heap(s_fs4_kernel_base[][])[off #s_fs4_kernel_base[symbol] 0]] = s_fs4_last_state else #heap(s_fs4_last_state->link)[ch (cl - 1)] = s_fs4_last_state) /\
     #s_fs4_last_state->number = old s_nstates /\ #s_fs4_last_state->nitems = #s_fs4_kernel_end[symbol] - #s_fs4_kernel_base[symbol] /\
     same #heap(s_fs4_last_state->items[]) #s_fs4_last_state->items #heap(s_fs4_kernel_base[][]) #s_fs4_kernel_base[symbol] (#s_fs4_kernel_end[symbol] - #s_fs4_kernel_base[symbol])
loop 1
before: gk <- 0
inv pos: (found = 0 /\ 0 <= gk < cl /\ sp = ch gk /\ s_nstates = old s_nstates) \/ (found <> 0 /\ 0 <= gk < cl /\ sp = ch gk /\ s_nstates = old s_nstates /\ #sp->nitems = n /\
     same #heap(sp->items[]) #sp->items #heap(s_fs4_kernel_base[][]) #s_fs4_kernel_base[symbol] n) \/
     (found <> 0 /\ s_nstates = old s_nstates + 1 /\ sp = s_fs4_last_state /\ #sp->number = old s_nstates /\ gk = cl - 1 /\ #heap(sp->link)[ch (cl - 1)] = sp /\ #sp->nitems = n /\
     same #heap(sp->items[]) #sp->items #heap(s_fs4_kernel_base[][]) #s_fs4_kernel_base[symbol] n)
inv n: n = #s_fs4_kernel_end[symbol] - #s_fs4_kernel_base[symbol] /\ n > 0 /\ iend = off #s_fs4_kernel_base[symbol] n
inv chain: forall k. 0 <= k < cl -> #heap(sp->items)[ch k] = (old #heap(sp->items))[ch k] /\ #heap(sp->nitems)[ch k] = (old #heap(sp->nitems))[ch k] /\ #heap(sp->number)[ch k] = (old #heap(sp->number))[ch k]
inv links: s_nstates = old s_nstates -> forall k. 0 <= k < cl -> #heap(sp->link)[ch k] = ch (k + 1)
inv items: forall x. x < old #brk(sp->items) -> #heap(sp->items[])[x] = (old #heap(sp->items[]))[x]
inv brk: s_nstates = old s_nstates -> #brk(sp) = old #brk(sp) /\ #brk(sp->items) = old #brk(sp->items) /\ s_fs4_last_state = old s_fs4_last_state
inv absent: forall k. 0 <= k < gk -> #heap(sp->nitems)[ch k] = n -> not (same #heap(sp->items[]) #heap(sp->items)[ch k] #heap(s_fs4_kernel_base[][]) #s_fs4_kernel_base[symbol] n)
inv absent-last: s_nstates <> old s_nstates -> #heap(sp->nitems)[ch gk] = n -> not (same #heap(sp->items[]) #heap(sp->items)[ch gk] #heap(s_fs4_kernel_base[][]) #s_fs4_kernel_base[symbol] n)
after_body: if found = 0 then gk <- gk + 1
opt termination off
loop 2
before: gi <- 0
inv pos: 0 <= gi <= n /\ isp1 = off #s_fs4_kernel_base[symbol] gi /\ isp2 = off #sp->items gi
inv eq: found <> 0 -> forall i. 0 <= i < gi -> #heap(s_fs4_kernel_base[][])[off #s_fs4_kernel_base[symbol] i] = #sp->items[i]
inv ne: found = 0 -> exists i. 0 <= i < n /\ #heap(s_fs4_kernel_base[][])[off #s_fs4_kernel_base[symbol] i] <> #sp->items[i]
var: n - gi
after_body: gi <- gi + 1
