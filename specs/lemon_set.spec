== SetSize files=lemon/lemon.c props=L01
singleton lemon:l_
ensures size: l_set_size = n + 1

== SetNew files=lemon/lemon.c props=L01
singleton lemon:l_
requires size: l_set_size >= 0
ensures empty: forall i. 0 <= i < l_set_size -> #result[i] = 0
ensures fresh: result >= old #brk(result) /\ result > 0 /\ #brk(result) >= result + l_set_size
ensures frame: forall x. x < old #brk(result) -> #heap(result[])[x] = (old #heap(result[]))[x]

== SetAdd files=lemon/lemon.c props=L01
singleton lemon:l_
requires range: 0 <= e < l_set_size
ensures member: #s[e] = 1
ensures frame: forall k. k <> s + e -> #heap(s[])[k] = (old #heap(s[]))[k]
ensures was-new: result <> 0 <-> old #s[e] = 0
ensures kept: forall p. (old #heap(s[]))[p] <> 0 -> #heap(s[])[p] <> 0
ensures same: result = 0 -> forall p. (old #heap(s[]))[p] <> 0 <-> #heap(s[])[p] <> 0
ensures only: forall p. #heap(s[])[p] <> 0 -> p = s + e \/ (old #heap(s[]))[p] <> 0
ensures count: result >= 0

== SetUnion files=lemon/lemon.c props=L01
singleton lemon:l_
opt merge s1=s2
requires size: l_set_size >= 0
requires separate: s1 = s2 \/ s1 + l_set_size <= s2 \/ s2 + l_set_size <= s1
ensures union: forall k. 0 <= k < l_set_size -> (#s1[k] <> 0 <-> old #s1[k] <> 0 \/ old #s2[k] <> 0)
ensures source-kept: forall k. 0 <= k < l_set_size -> #s2[k] = old #s2[k]
ensures frame: forall k. k < s1 \/ k >= s1 + l_set_size -> #heap(s1[])[k] = (old #heap(s1[]))[k]
ensures progress: result <> 0 <-> exists k. 0 <= k < l_set_size /\ old #s1[k] = 0 /\ old #s2[k] <> 0
ensures kept: forall p. (old #heap(s1[]))[p] <> 0 -> #heap(s1[])[p] <> 0
ensures same: result = 0 -> forall p. (old #heap(s1[]))[p] <> 0 <-> #heap(s1[])[p] <> 0
ensures only: forall p. #heap(s1[])[p] <> 0 -> (s1 <= p < s1 + l_set_size /\ (old #heap(s1[]))[s2 + (p - s1)] <> 0) \/ (old #heap(s1[]))[p] <> 0
ensures count: result >= 0
loop 1
inv range: 0 <= i <= l_set_size
inv done: forall k. 0 <= k < i -> (#s1[k] <> 0 <-> old #s1[k] <> 0 \/ old #s2[k] <> 0)
inv rest: forall k. i <= k < l_set_size -> #s1[k] = old #s1[k]
inv source: forall k. 0 <= k < l_set_size -> #s2[k] = old #s2[k]
inv kept: forall p. (old #heap(s1[]))[p] <> 0 -> #heap(s1[])[p] <> 0
inv only: forall p. #heap(s1[])[p] <> 0 -> (s1 <= p < s1 + i /\ (old #heap(s1[]))[s2 + (p - s1)] <> 0) \/ (old #heap(s1[]))[p] <> 0
inv frame: forall k. k < s1 \/ k >= s1 + l_set_size -> #heap(s1[])[k] = (old #heap(s1[]))[k]
inv count: progress >= 0
inv same: progress = 0 -> forall p. #heap(s1[])[p] <> 0 -> (old #heap(s1[]))[p] <> 0
inv progress: progress <> 0 <-> exists k. 0 <= k < i /\ old #s1[k] = 0 /\ old #s2[k] <> 0
var: l_set_size - i

== FindFirstSets files=lemon/lemon.c props=L01
opt merge l_symbols[]=l_rule->lhs l_symbols[]=l_rule->rhs[] l_symbols[]->subsym[]=l_symbols[]
singleton lemon:l_
logic:
 (* the rules, as an arbitrary sequence; the place of a symbol in the symbol table *)
 function nd int : int
 constant nr : int
 function col int : int
 (* right and left sides of rule k *)
 function rh int int : int
 function lh int : int
 function len int : int
 (* the tokens a terminal or token class stands for *)
 predicate tbeg int int
 (* arbitrary: "least" is said against every set of symbols and every relation closed under the rules *)
 predicate xnul int
 predicate xfirst int int
 predicate isn (sy: map int int) (psy nt ns s: int) = nt <= col s < ns /\ s = sy[off psy (col s)] /\ s <> 0
requires types: #TERMINAL = 0 /\ #NONTERMINAL = 1 /\ #MULTITERMINAL = 2
requires sizes: 0 <= l_nterminal <= l_nsymbol /\ l_set_size = l_nterminal + 1
requires nz: forall k [nd k]. 0 <= k < nr -> nd k <> 0
requires list: nr >= 0 /\ l_rule = nd 0 /\ nd nr = 0 /\ forall k k1 [nd k, nd k1]. k1 = k + 1 -> 0 <= k < nr -> #heap(l_rule->next)[nd k] = nd k1
requires table: forall i. 0 <= i < l_nsymbol -> col #l_symbols[i] = i /\ #l_symbols[i] <> 0
requires table-types: forall i. 0 <= i < l_nsymbol -> (#heap(l_symbols[]->type)[#l_symbols[i]] = #NONTERMINAL <-> i >= l_nterminal)
requires left: forall k [nd k]. 0 <= k < nr -> isn #heap(l_symbols[]) l_symbols l_nterminal l_nsymbol (lh k)
requires rules: forall k [nd k]. 0 <= k < nr -> lh k = #heap(l_rule->lhs)[nd k] /\ len k = #heap(l_rule->nrhs)[nd k]
requires right-sides: forall k i [rh k i]. 0 <= k < nr -> rh k i = #heap(l_rule->rhs[])[off #heap(l_rule->rhs)[nd k] i]
requires arity: forall k [nd k]. 0 <= k < nr -> len k >= 0
requires right: forall k i [rh k i]. 0 <= k < nr -> 0 <= i < len k -> let s = rh k i in
   0 <= #heap(l_symbols[]->type)[s] <= 2 /\
   (#heap(l_symbols[]->type)[s] = #NONTERMINAL -> isn #heap(l_symbols[]) l_symbols l_nterminal l_nsymbol s) /\
   (#heap(l_symbols[]->type)[s] = #TERMINAL -> 0 <= col s < l_nterminal /\ s = #l_symbols[col s] /\ 0 <= #heap(l_symbols[]->index)[s] < l_set_size) /\
   (#heap(l_symbols[]->type)[s] = #MULTITERMINAL -> forall j. 0 <= j < #heap(l_symbols[]->nsubsym)[s] -> 0 <= #heap(l_symbols[]->index)[#heap(l_symbols[]->subsym[])[off #heap(l_symbols[]->subsym)[s] j]] < l_set_size)
requires classes: forall s. #heap(l_symbols[]->type)[s] = #MULTITERMINAL -> #heap(l_symbols[]->lambda)[s] = 0
requires token: forall s t. #heap(l_symbols[]->type)[s] = #TERMINAL -> (tbeg s t <-> t = #heap(l_symbols[]->index)[s])
requires class: forall s t. #heap(l_symbols[]->type)[s] = #MULTITERMINAL -> (tbeg s t <-> exists j. 0 <= j < #heap(l_symbols[]->nsubsym)[s] /\ t = #heap(l_symbols[]->index)[#heap(l_symbols[]->subsym[])[off #heap(l_symbols[]->subsym)[s] j]])
requires nonterminal: forall s t. #heap(l_symbols[]->type)[s] = #NONTERMINAL -> not (tbeg s t)
ghost let ref gk = 0 in
store progress#4: assert { (forall k i t. 0 <= k < nr -> 0 <= i < len k -> 0 <= t < l_set_size -> (forall j. 0 <= j < i -> #heap(l_symbols[]->lambda)[(rh k j)] <> 0) ->    (let s = rh k i in tbeg s t \/ (#heap(l_symbols[]->type)[s] = #NONTERMINAL /\ xfirst s t)) -> xfirst (lh k) t) ->    forall s t. isn #heap(l_symbols[]) l_symbols l_nterminal l_nsymbol s -> 0 <= t < l_set_size -> #heap(l_symbols[]->firstset[])[#heap(l_symbols[]->firstset)[s] + t] <> 0 -> xfirst s t }; assert { (progress = 0 -> forall t. 0 <= t < l_set_size -> (let s = rh gk i in tbeg s t \/ (#heap(l_symbols[]->type)[s] = #NONTERMINAL /\ #heap(l_symbols[]->firstset[])[#heap(l_symbols[]->firstset)[s] + t] <> 0)) -> #heap(l_symbols[]->firstset[])[#s1->firstset + t] <> 0) };
store progress#6: assert { (forall k i t. 0 <= k < nr -> 0 <= i < len k -> 0 <= t < l_set_size -> (forall j. 0 <= j < i -> #heap(l_symbols[]->lambda)[(rh k j)] <> 0) ->    (let s = rh k i in tbeg s t \/ (#heap(l_symbols[]->type)[s] = #NONTERMINAL /\ xfirst s t)) -> xfirst (lh k) t) ->    forall s t. isn #heap(l_symbols[]) l_symbols l_nterminal l_nsymbol s -> 0 <= t < l_set_size -> #heap(l_symbols[]->firstset[])[#heap(l_symbols[]->firstset)[s] + t] <> 0 -> xfirst s t }; assert { (progress = 0 -> forall t. 0 <= t < l_set_size -> (let s = rh gk i in tbeg s t \/ (#heap(l_symbols[]->type)[s] = #NONTERMINAL /\ #heap(l_symbols[]->firstset[])[#heap(l_symbols[]->firstset)[s] + t] <> 0)) -> #heap(l_symbols[]->firstset[])[#s1->firstset + t] <> 0) };
ensures nullable-closed: forall k. 0 <= k < nr -> (forall i. 0 <= i < len k -> #heap(l_symbols[]->lambda)[(rh k i)] <> 0) -> #heap(l_symbols[]->lambda)[(lh k)] <> 0
ensures nullable-least: (forall k. 0 <= k < nr -> (forall i. 0 <= i < len k -> xnul (rh k i)) -> xnul (lh k)) ->
   forall s. 0 <= col s < l_nsymbol -> s = #l_symbols[col s] -> #heap(l_symbols[]->lambda)[s] <> 0 -> xnul s
ensures first-closed: forall k i t. 0 <= k < nr -> 0 <= i < len k -> 0 <= t < l_set_size -> (forall j. 0 <= j < i -> #heap(l_symbols[]->lambda)[(rh k j)] <> 0) ->
   (let s = rh k i in tbeg s t \/ (#heap(l_symbols[]->type)[s] = #NONTERMINAL /\ #heap(l_symbols[]->firstset[])[#heap(l_symbols[]->firstset)[s] + t] <> 0)) ->
   #heap(l_symbols[]->firstset[])[#heap(l_symbols[]->firstset)[(lh k)] + t] <> 0
ensures first-least: (forall k i t. 0 <= k < nr -> 0 <= i < len k -> 0 <= t < l_set_size -> (forall j. 0 <= j < i -> #heap(l_symbols[]->lambda)[(rh k j)] <> 0) ->
   (let s = rh k i in tbeg s t \/ (#heap(l_symbols[]->type)[s] = #NONTERMINAL /\ xfirst s t)) -> xfirst (lh k) t) ->
   forall s t. isn #heap(l_symbols[]) l_symbols l_nterminal l_nsymbol s -> 0 <= t < l_set_size -> #heap(l_symbols[]->firstset[])[#heap(l_symbols[]->firstset)[s] + t] <> 0 -> xfirst s t
loop 1
inv i: 0 <= i
inv cleared: forall c. 0 <= c < i -> #heap(l_symbols[]->lambda)[#l_symbols[c]] = 0
inv classes: forall s. #heap(l_symbols[]->type)[s] = #MULTITERMINAL -> #heap(l_symbols[]->lambda)[s] = 0
var: l_nsymbol - i
loop 2
inv i: l_nterminal <= i
inv fresh: forall c. l_nterminal <= c < i -> #heap(l_symbols[]->firstset)[#l_symbols[c]] + l_set_size <= #brk(l_symbols[]->firstset) 
inv empty: forall c t. l_nterminal <= c < i -> 0 <= t < l_set_size -> #heap(l_symbols[]->firstset[])[#heap(l_symbols[]->firstset)[#l_symbols[c]] + t] = 0
inv order: forall c d. l_nterminal <= c < d < i -> #heap(l_symbols[]->firstset)[#l_symbols[c]] + l_set_size <= #heap(l_symbols[]->firstset)[#l_symbols[d]]
var: l_nsymbol - i
after: assert { forall s s'. isn #heap(l_symbols[]) l_symbols l_nterminal l_nsymbol s -> isn #heap(l_symbols[]) l_symbols l_nterminal l_nsymbol s' -> s <> s' -> #heap(l_symbols[]->firstset)[s] + l_set_size <= #heap(l_symbols[]->firstset)[s'] \/ #heap(l_symbols[]->firstset)[s'] + l_set_size <= #heap(l_symbols[]->firstset)[s] }
after: assert { forall s. isn #heap(l_symbols[]) l_symbols l_nterminal l_nsymbol s -> forall t. 0 <= t < l_set_size -> #heap(l_symbols[]->firstset[])[#heap(l_symbols[]->firstset)[s] + t] = 0 }
loop 3
inv tokens: forall c. 0 <= c < l_nterminal -> #heap(l_symbols[]->lambda)[#l_symbols[c]] = 0
inv classes: forall s. #heap(l_symbols[]->type)[s] = #MULTITERMINAL -> #heap(l_symbols[]->lambda)[s] = 0
inv least: (forall k. 0 <= k < nr -> (forall i. 0 <= i < len k -> xnul (rh k i)) -> xnul (lh k)) ->
   forall s. 0 <= col s < l_nsymbol -> s = #l_symbols[col s] -> #heap(l_symbols[]->lambda)[s] <> 0 -> xnul s
loop 4
before: gk <- 0
inv k: 0 <= gk <= nr /\ rp = nd gk
inv tokens: forall c. 0 <= c < l_nterminal -> #heap(l_symbols[]->lambda)[#l_symbols[c]] = 0
inv classes: forall s. #heap(l_symbols[]->type)[s] = #MULTITERMINAL -> #heap(l_symbols[]->lambda)[s] = 0
inv least: (forall k. 0 <= k < nr -> (forall i. 0 <= i < len k -> xnul (rh k i)) -> xnul (lh k)) ->
   forall s. 0 <= col s < l_nsymbol -> s = #l_symbols[col s] -> #heap(l_symbols[]->lambda)[s] <> 0 -> xnul s
inv closed: progress = 0 -> forall k. 0 <= k < gk -> (forall i. 0 <= i < len k -> #heap(l_symbols[]->lambda)[(rh k i)] <> 0) -> #heap(l_symbols[]->lambda)[(lh k)] <> 0
body: assert { nd (gk + 1) = nd (gk + 1) };
after_body: gk <- gk + 1
var: nr - gk
loop 5
body: assert { rh gk i = #heap(l_rule->rhs[])[off #rp->rhs i] }
inv i: 0 <= i <= #rp->nrhs
inv nullable: forall j. 0 <= j < i -> #heap(l_symbols[]->lambda)[rh gk j] <> 0
var: #rp->nrhs - i
loop 6
inv least: (forall k i t. 0 <= k < nr -> 0 <= i < len k -> 0 <= t < l_set_size -> (forall j. 0 <= j < i -> #heap(l_symbols[]->lambda)[(rh k j)] <> 0) ->
   (let s = rh k i in tbeg s t \/ (#heap(l_symbols[]->type)[s] = #NONTERMINAL /\ xfirst s t)) -> xfirst (lh k) t) ->
   forall s t. isn #heap(l_symbols[]) l_symbols l_nterminal l_nsymbol s -> 0 <= t < l_set_size -> #heap(l_symbols[]->firstset[])[#heap(l_symbols[]->firstset)[s] + t] <> 0 -> xfirst s t
loop 7
before: gk <- 0
inv k: 0 <= gk <= nr /\ rp = nd gk /\ progress >= 0
inv least: (forall k i t. 0 <= k < nr -> 0 <= i < len k -> 0 <= t < l_set_size -> (forall j. 0 <= j < i -> #heap(l_symbols[]->lambda)[(rh k j)] <> 0) ->
   (let s = rh k i in tbeg s t \/ (#heap(l_symbols[]->type)[s] = #NONTERMINAL /\ xfirst s t)) -> xfirst (lh k) t) ->
   forall s t. isn #heap(l_symbols[]) l_symbols l_nterminal l_nsymbol s -> 0 <= t < l_set_size -> #heap(l_symbols[]->firstset[])[#heap(l_symbols[]->firstset)[s] + t] <> 0 -> xfirst s t
inv closed: progress = 0 -> forall k i t. 0 <= k < gk -> 0 <= i < len k -> 0 <= t < l_set_size -> (forall j. 0 <= j < i -> #heap(l_symbols[]->lambda)[(rh k j)] <> 0) ->
   (let s = rh k i in tbeg s t \/ (#heap(l_symbols[]->type)[s] = #NONTERMINAL /\ #heap(l_symbols[]->firstset[])[#heap(l_symbols[]->firstset)[s] + t] <> 0)) ->
   #heap(l_symbols[]->firstset[])[#heap(l_symbols[]->firstset)[(lh k)] + t] <> 0
body: assert { nd (gk + 1) = nd (gk + 1) };
after_body: gk <- gk + 1
var: nr - gk
loop 8
body: assert { rh gk i = #heap(l_rule->rhs[])[off #rp->rhs i] }
inv i: 0 <= i /\ s1 = #rp->lhs /\ progress >= (progress at L8) >= 0
inv nullable: forall j. 0 <= j < i -> #heap(l_symbols[]->lambda)[rh gk j] <> 0
inv same: progress = 0 -> forall p. #heap(l_symbols[]->firstset[])[p] <> 0 <-> (#heap(l_symbols[]->firstset[]) at L8)[p] <> 0
inv done: progress = 0 -> forall i' t. 0 <= i' < i -> 0 <= t < l_set_size -> 
   (let s = rh gk i' in tbeg s t \/ (#heap(l_symbols[]->type)[s] = #NONTERMINAL /\ #heap(l_symbols[]->firstset[])[#heap(l_symbols[]->firstset)[s] + t] <> 0)) ->
   #heap(l_symbols[]->firstset[])[#heap(l_symbols[]->firstset)[s1] + t] <> 0
inv least: (forall k i t. 0 <= k < nr -> 0 <= i < len k -> 0 <= t < l_set_size -> (forall j. 0 <= j < i -> #heap(l_symbols[]->lambda)[(rh k j)] <> 0) ->
   (let s = rh k i in tbeg s t \/ (#heap(l_symbols[]->type)[s] = #NONTERMINAL /\ xfirst s t)) -> xfirst (lh k) t) ->
   forall s t. isn #heap(l_symbols[]) l_symbols l_nterminal l_nsymbol s -> 0 <= t < l_set_size -> #heap(l_symbols[]->firstset[])[#heap(l_symbols[]->firstset)[s] + t] <> 0 -> xfirst s t
var: #rp->nrhs - i
loop 9
inv j: 0 <= j /\ progress >= (progress at L9) >= 0
inv same: progress = (progress at L9) -> forall p. #heap(l_symbols[]->firstset[])[p] <> 0 <-> (#heap(l_symbols[]->firstset[]) at L9)[p] <> 0
inv done: forall j'. 0 <= j' < j -> #heap(l_symbols[]->firstset[])[#s1->firstset + #heap(l_symbols[]->index)[#heap(l_symbols[]->subsym[])[off #s2->subsym j']]] <> 0
inv kept: forall p. (#heap(l_symbols[]->firstset[]) at L9)[p] <> 0 -> #heap(l_symbols[]->firstset[])[p] <> 0
inv only: forall p. #heap(l_symbols[]->firstset[])[p] <> 0 -> (#heap(l_symbols[]->firstset[]) at L9)[p] <> 0 \/ exists j'. 0 <= j' < j /\ p = #s1->firstset + #heap(l_symbols[]->index)[#heap(l_symbols[]->subsym[])[off #s2->subsym j']]
after: assert { s2 = rh gk i /\ #heap(l_symbols[]->type)[s2] <> #NONTERMINAL }
after: assert { forall t. tbeg s2 t -> exists j. 0 <= j < #s2->nsubsym /\ t = #heap(l_symbols[]->index)[#heap(l_symbols[]->subsym[])[off #s2->subsym j]] }; assert { forall t. tbeg s2 t -> #heap(l_symbols[]->firstset[])[#s1->firstset + t] <> 0 }
after: assert { (progress = 0 -> forall t. 0 <= t < l_set_size -> (let s = rh gk i in tbeg s t \/ (#heap(l_symbols[]->type)[s] = #NONTERMINAL /\ #heap(l_symbols[]->firstset[])[#heap(l_symbols[]->firstset)[s] + t] <> 0)) -> #heap(l_symbols[]->firstset[])[#s1->firstset + t] <> 0)  }
body: assert { tbeg s2 #heap(l_symbols[]->index)[#heap(l_symbols[]->subsym[])[off #s2->subsym j]] }
inv least: (forall k i t. 0 <= k < nr -> 0 <= i < len k -> 0 <= t < l_set_size -> (forall j. 0 <= j < i -> #heap(l_symbols[]->lambda)[(rh k j)] <> 0) ->    (let s = rh k i in tbeg s t \/ (#heap(l_symbols[]->type)[s] = #NONTERMINAL /\ xfirst s t)) -> xfirst (lh k) t) ->    forall s t. isn #heap(l_symbols[]) l_symbols l_nterminal l_nsymbol s -> 0 <= t < l_set_size -> #heap(l_symbols[]->firstset[])[#heap(l_symbols[]->firstset)[s] + t] <> 0 -> xfirst s t 
var: #s2->nsubsym - j

== FindFollowSets files=lemon/lemon.c props=L02
singleton lemon:l_
opt merge cfp=plp->cfp
logic:
 (* the items of the states, and the propagation links of an item, as arbitrary sequences *)
 function cf int int : int
 function nc int : int
 function st int : int
 function ix int : int
 function lk int int : int
 function nl int : int
 function lt int int : int
 function fw int : int
 constant ns : int
 (* arbitrary: "least" is said against every relation *)
 predicate xfw int int
 predicate con (c: int) = 0 <= st c < ns /\ 0 <= ix c < nc (st c) /\ c = cf (st c) (ix c) /\ c <> 0
requires status: #COMPLETE <> #INCOMPLETE
requires states: l_nstate = ns /\ ns >= 0 /\ forall i. 0 <= i < l_nstate -> #l_sorted[i] <> 0
requires items: forall i. 0 <= i < l_nstate -> nc i >= 0 /\ cf i (nc i) = 0 /\ #heap(l_sorted[]->cfp)[#l_sorted[i]] = cf i 0
requires nonnull: forall i k [cf i k]. 0 <= i < l_nstate -> 0 <= k < nc i -> cf i k <> 0 /\ st (cf i k) = i /\ ix (cf i k) = k
requires next: forall i k k1 [cf i k, cf i k1]. k1 = k + 1 -> 0 <= i < l_nstate -> 0 <= k < nc i -> #heap(cfp->next)[cf i k] = cf i k1
requires links: forall c. con c -> nl c >= 0 /\ lk c (nl c) = 0 /\ #heap(cfp->fplp)[c] = lk c 0
requires link: forall c m [lk c m]. con c -> 0 <= m < nl c -> lk c m <> 0 /\ #heap(cfp->fplp->cfp)[lk c m] = lt c m
requires target: forall c m [lt c m]. con c -> 0 <= m < nl c -> con (lt c m)
requires link-next: forall c m m1 [lk c m, lk c m1]. m1 = m + 1 -> con c -> 0 <= m < nl c -> #heap(cfp->fplp->next)[lk c m] = lk c m1
requires size: l_set_size >= 0
requires fws: forall c [fw c]. con c -> fw c = #heap(cfp->fws)[c]
requires separate: forall c d [fw c, fw d]. con c -> con d -> c <> d -> fw c + l_set_size <= fw d \/ fw d + l_set_size <= fw c
ghost let ref gk = 0 in
ghost let ref gm = 0 in
after_call SetUnion: assert { let m = gm in (forall t. 0 <= t < l_set_size -> #heap(cfp->fws[])[fw cfp + t] <> 0 -> #heap(cfp->fws[])[fw (lt cfp m) + t] <> 0) }; assert { #plp->cfp <> cfp -> (#cfp->fws + l_set_size <= #plp->cfp->fws \/ #plp->cfp->fws + l_set_size <= #cfp->fws) }; assert { #plp->cfp <> cfp -> forall t. 0 <= t < l_set_size -> (#heap(cfp->fws[]))[fw cfp + t] <> 0 -> hf[fw cfp + t] <> 0 }; assert { #plp->cfp = cfp -> forall t. 0 <= t < l_set_size -> (#heap(cfp->fws[]))[fw cfp + t] <> 0 -> hf[fw cfp + t] <> 0 }; assert { forall t. 0 <= t < l_set_size -> (#heap(cfp->fws[]))[fw cfp + t] <> 0 -> hf[fw cfp + t] <> 0 }; assert { forall p. hf[p] <> 0 -> (#heap(cfp->fws[]))[p] <> 0 }; assert { forall m. 0 <= m < gm -> (forall t. 0 <= t < l_set_size -> #heap(cfp->fws[])[fw cfp + t] <> 0 -> #heap(cfp->fws[])[fw (lt cfp m) + t] <> 0) };
ghost let ref hf = #heap(cfp->fws[]) in
ensures kept: forall c t. con c -> 0 <= t < l_set_size -> (old #heap(cfp->fws[]))[fw c + t] <> 0 -> #heap(cfp->fws[])[fw c + t] <> 0
ensures closed: forall c m. con c -> 0 <= m < nl c -> (forall t. 0 <= t < l_set_size -> #heap(cfp->fws[])[fw c + t] <> 0 -> #heap(cfp->fws[])[fw (lt c m) + t] <> 0)
ensures least: (forall c t. con c -> 0 <= t < l_set_size -> (old #heap(cfp->fws[]))[fw c + t] <> 0 -> xfw c t) -> (forall c m t. con c -> 0 <= m < nl c -> 0 <= t < l_set_size -> xfw c t -> xfw (lt c m) t) -> forall c t. con c -> 0 <= t < l_set_size -> #heap(cfp->fws[])[fw c + t] <> 0 -> xfw c t
loop 1
inv i: 0 <= i
inv marked: forall c. con c -> st c < i -> #heap(cfp->status)[c] = #INCOMPLETE
var: l_nstate - i
loop 2
before: gk <- 0
inv k: 0 <= gk <= nc i /\ cfp = cf i gk
inv marked: forall c. con c -> st c < i -> #heap(cfp->status)[c] = #INCOMPLETE
inv marked-here: forall c. con c -> st c = i -> ix c < gk -> #heap(cfp->status)[c] = #INCOMPLETE
body: assert { cf i (gk + 1) = cf i (gk + 1) };
after_body: gk <- gk + 1
var: nc i - gk
loop 3
inv complete: forall c m. con c -> #heap(cfp->status)[c] = #COMPLETE -> 0 <= m < nl c -> (forall t. 0 <= t < l_set_size -> #heap(cfp->fws[])[fw c + t] <> 0 -> #heap(cfp->fws[])[fw (lt c m) + t] <> 0)
inv kept: forall c t. con c -> 0 <= t < l_set_size -> (old #heap(cfp->fws[]))[fw c + t] <> 0 -> #heap(cfp->fws[])[fw c + t] <> 0
inv least: (forall c t. con c -> 0 <= t < l_set_size -> (old #heap(cfp->fws[]))[fw c + t] <> 0 -> xfw c t) -> (forall c m t. con c -> 0 <= m < nl c -> 0 <= t < l_set_size -> xfw c t -> xfw (lt c m) t) -> forall c t. con c -> 0 <= t < l_set_size -> #heap(cfp->fws[])[fw c + t] <> 0 -> xfw c t
loop 4
inv i: 0 <= i <= l_nstate
inv done: progress = 0 -> forall c m. con c -> st c < i -> 0 <= m < nl c -> (forall t. 0 <= t < l_set_size -> #heap(cfp->fws[])[fw c + t] <> 0 -> #heap(cfp->fws[])[fw (lt c m) + t] <> 0)
inv complete: forall c m. con c -> #heap(cfp->status)[c] = #COMPLETE -> 0 <= m < nl c -> (forall t. 0 <= t < l_set_size -> #heap(cfp->fws[])[fw c + t] <> 0 -> #heap(cfp->fws[])[fw (lt c m) + t] <> 0)
inv kept: forall c t. con c -> 0 <= t < l_set_size -> (old #heap(cfp->fws[]))[fw c + t] <> 0 -> #heap(cfp->fws[])[fw c + t] <> 0
inv least: (forall c t. con c -> 0 <= t < l_set_size -> (old #heap(cfp->fws[]))[fw c + t] <> 0 -> xfw c t) -> (forall c m t. con c -> 0 <= m < nl c -> 0 <= t < l_set_size -> xfw c t -> xfw (lt c m) t) -> forall c t. con c -> 0 <= t < l_set_size -> #heap(cfp->fws[])[fw c + t] <> 0 -> xfw c t
var: l_nstate - i
loop 5
before: gk <- 0
inv k: 0 <= gk <= nc i /\ cfp = cf i gk
inv done: progress = 0 -> forall c m. con c -> st c < i \/ (st c = i /\ ix c < gk) -> 0 <= m < nl c -> (forall t. 0 <= t < l_set_size -> #heap(cfp->fws[])[fw c + t] <> 0 -> #heap(cfp->fws[])[fw (lt c m) + t] <> 0)
inv complete: forall c m. con c -> #heap(cfp->status)[c] = #COMPLETE -> 0 <= m < nl c -> (forall t. 0 <= t < l_set_size -> #heap(cfp->fws[])[fw c + t] <> 0 -> #heap(cfp->fws[])[fw (lt c m) + t] <> 0)
inv kept: forall c t. con c -> 0 <= t < l_set_size -> (old #heap(cfp->fws[]))[fw c + t] <> 0 -> #heap(cfp->fws[])[fw c + t] <> 0
inv least: (forall c t. con c -> 0 <= t < l_set_size -> (old #heap(cfp->fws[]))[fw c + t] <> 0 -> xfw c t) -> (forall c m t. con c -> 0 <= m < nl c -> 0 <= t < l_set_size -> xfw c t -> xfw (lt c m) t) -> forall c t. con c -> 0 <= t < l_set_size -> #heap(cfp->fws[])[fw c + t] <> 0 -> xfw c t
body: assert { cf i (gk + 1) = cf i (gk + 1) /\ con cfp };
after_body: gk <- gk + 1
var: nc i - gk
loop 6
before: gm <- 0
inv m: 0 <= gm <= nl cfp /\ plp = lk cfp gm /\ con cfp
inv done: progress = 0 -> forall c m. con c -> st c < i \/ (st c = i /\ ix c < gk) -> 0 <= m < nl c -> (forall t. 0 <= t < l_set_size -> #heap(cfp->fws[])[fw c + t] <> 0 -> #heap(cfp->fws[])[fw (lt c m) + t] <> 0)
inv complete: forall c m. con c -> c <> cfp -> #heap(cfp->status)[c] = #COMPLETE -> 0 <= m < nl c -> (forall t. 0 <= t < l_set_size -> #heap(cfp->fws[])[fw c + t] <> 0 -> #heap(cfp->fws[])[fw (lt c m) + t] <> 0)
inv own: forall m. 0 <= m < gm -> (forall t. 0 <= t < l_set_size -> #heap(cfp->fws[])[fw cfp + t] <> 0 -> #heap(cfp->fws[])[fw (lt cfp m) + t] <> 0)
inv kept: forall c t. con c -> 0 <= t < l_set_size -> (old #heap(cfp->fws[]))[fw c + t] <> 0 -> #heap(cfp->fws[])[fw c + t] <> 0
inv least: (forall c t. con c -> 0 <= t < l_set_size -> (old #heap(cfp->fws[]))[fw c + t] <> 0 -> xfw c t) -> (forall c m t. con c -> 0 <= m < nl c -> 0 <= t < l_set_size -> xfw c t -> xfw (lt c m) t) -> forall c t. con c -> 0 <= t < l_set_size -> #heap(cfp->fws[])[fw c + t] <> 0 -> xfw c t
body: hf <- #heap(cfp->fws[]); assert { lk cfp (gm + 1) = lk cfp (gm + 1) /\ fw cfp = #cfp->fws /\ fw #plp->cfp = #plp->cfp->fws /\ lt cfp gm = #plp->cfp /\ con #plp->cfp };
after_body: gm <- gm + 1
var: nl cfp - gm
