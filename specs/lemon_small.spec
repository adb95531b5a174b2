== minimum_size_type files=lemon/lemon.c props=L08
opt strlits
ensures holds: (#lit(result, "unsigned char") /\ 0 <= lwr /\ upr <= 255) \/ (#lit(result, "unsigned short int") /\ 0 <= lwr /\ upr <= 65535) \/ (#lit(result, "unsigned int") /\ 0 <= lwr)
   \/ (#lit(result, "signed char") /\ -128 <= lwr /\ upr <= 127) \/ (#lit(result, "short") /\ -32768 <= lwr /\ upr <= 32767) \/ #lit(result, "int")
ensures size: pnByte <> 0 -> (#pnByte[0] = 1 /\ (#lit(result, "unsigned char") \/ #lit(result, "signed char"))) \/ (#pnByte[0] = 2 /\ (#lit(result, "unsigned short int") \/ #lit(result, "short"))) \/ (#pnByte[0] = 4 /\ (#lit(result, "unsigned int") \/ #lit(result, "int")))

== Configcmp files=lemon/lemon.c props=L02,L05
ptype _a struct config *
ptype _b struct config *
ensures equal: result = 0 <-> #u_a->rp->index = #u_b->rp->index /\ #u_a->dot = #u_b->dot
ensures less: result < 0 <-> #u_a->rp->index < #u_b->rp->index \/ (#u_a->rp->index = #u_b->rp->index /\ #u_a->dot < #u_b->dot)

== actioncmp files=lemon/lemon.c props=L05,L03
logic:
 predicate red (t: int) = t = 2 \/ t = 10
ensures equal: result = 0 <-> #ap1->sp->index = #ap2->sp->index /\ #ap1->type = #ap2->type /\ (#ap1->type = #REDUCE \/ #ap1->type = #SHIFTREDUCE -> #ap1->x.rp->index = #ap2->x.rp->index) /\ ap1 = ap2
ensures lookahead: #ap1->sp->index < #ap2->sp->index -> result < 0
ensures lookahead2: #ap1->sp->index > #ap2->sp->index -> result > 0
ensures kind: #ap1->sp->index = #ap2->sp->index /\ #ap1->type < #ap2->type -> result < 0
ensures kind2: #ap1->sp->index = #ap2->sp->index /\ #ap1->type > #ap2->type -> result > 0
ensures rule: #ap1->sp->index = #ap2->sp->index /\ #ap1->type = #ap2->type /\ (#ap1->type = #REDUCE \/ #ap1->type = #SHIFTREDUCE) /\ #ap1->x.rp->index < #ap2->x.rp->index -> result < 0
ensures rule2: #ap1->sp->index = #ap2->sp->index /\ #ap1->type = #ap2->type /\ (#ap1->type = #REDUCE \/ #ap1->type = #SHIFTREDUCE) /\ #ap1->x.rp->index > #ap2->x.rp->index -> result > 0
ensures rest: #ap1->sp->index = #ap2->sp->index /\ #ap1->type = #ap2->type /\ ((#ap1->type = #REDUCE \/ #ap1->type = #SHIFTREDUCE) -> #ap1->x.rp->index = #ap2->x.rp->index) -> result = ap2 - ap1

== axset_compare files=lemon/lemon.c props=L05,L04
ptype a struct axset *
ptype b struct axset *
requires distinct: a <> b -> #a->nAction <> #b->nAction \/ #a->iOrder <> #b->iOrder
ensures less: result < 0 <-> #a->nAction > #b->nAction \/ (#a->nAction = #b->nAction /\ #a->iOrder < #b->iOrder)
ensures equal: result = 0 <-> #a->nAction = #b->nAction /\ #a->iOrder = #b->iOrder

== stateResortCompare files=lemon/lemon.c props=L05,L02
ptype a struct state **
ptype b struct state **
requires distinct: #a[0]->statenum <> #b[0]->statenum
ensures less: result < 0 <-> #a[0]->nNtAct > #b[0]->nNtAct \/ (#a[0]->nNtAct = #b[0]->nNtAct /\ (#a[0]->nTknAct > #b[0]->nTknAct \/ (#a[0]->nTknAct = #b[0]->nTknAct /\ #a[0]->statenum > #b[0]->statenum)))
ensures equal: result = 0 <-> #a[0]->nNtAct = #b[0]->nNtAct /\ #a[0]->nTknAct = #b[0]->nTknAct /\ #a[0]->statenum = #b[0]->statenum

== Symbolcmpp files=lemon/lemon.c props=L05,L06
ptype _a struct symbol **
ptype _b struct symbol **
logic:
 (* tokens before nonterminals before token classes *)
 function grp (t c: int) : int
 axiom grp_def: forall t c [grp t c]. grp t c = (if t = 2 then 3 else if c > 90 then 2 else 1)
ensures less: result < 0 <-> let ga = grp #u_a[0]->type #u_a[0]->name[0] in let gb = grp #u_b[0]->type #u_b[0]->name[0] in ga < gb \/ (ga = gb /\ #u_a[0]->index < #u_b[0]->index)
ensures equal: result = 0 <-> grp #u_a[0]->type #u_a[0]->name[0] = grp #u_b[0]->type #u_b[0]->name[0] /\ #u_a[0]->index = #u_b[0]->index

== statecmp files=lemon/lemon.c props=L02,L05,L06
use hashes.KSeq
requires lists: (exists n. isk #heap(a->bp) a n) /\ exists n. isk #heap(b->bp) b n
ghost let ref gk = 0 in
ensures equal: result = 0 <-> keq #heap(a->bp) #heap(a->rp) #heap(a->rp->index) #heap(a->dot) a #heap(b->bp) #heap(b->rp) #heap(b->rp->index) #heap(b->dot) b
loop 1
inv k: 0 <= gk <= klen #heap(a->bp) (a at L1) /\ gk <= klen #heap(b->bp) (b at L1) /\ (rc = 0 -> a = kn #heap(a->bp) (a at L1) gk /\ b = kn #heap(b->bp) (b at L1) gk)
inv same: rc = 0 -> forall k. 0 <= k < gk -> #heap(a->rp->index)[#heap(a->rp)[kn #heap(a->bp) (a at L1) k]] = #heap(b->rp->index)[#heap(b->rp)[kn #heap(b->bp) (b at L1) k]] /\ #heap(a->dot)[kn #heap(a->bp) (a at L1) k] = #heap(b->dot)[kn #heap(b->bp) (b at L1) k]
inv diff: rc <> 0 -> exists k. 0 <= k < klen #heap(a->bp) (a at L1) /\ k < klen #heap(b->bp) (b at L1) /\ not (#heap(a->rp->index)[#heap(a->rp)[kn #heap(a->bp) (a at L1) k]] = #heap(b->rp->index)[#heap(b->rp)[kn #heap(b->bp) (b at L1) k]] /\ #heap(a->dot)[kn #heap(a->bp) (a at L1) k] = #heap(b->dot)[kn #heap(b->bp) (b at L1) k])
body: assert { kn #heap(a->bp) (a at L1) (gk + 1) = kn #heap(a->bp) (a at L1) (gk + 1) /\ kn #heap(b->bp) (b at L1) (gk + 1) = kn #heap(b->bp) (b at L1) (gk + 1) };
after_body: gk <- gk + 1
var: klen #heap(a->bp) (a at L1) - gk

== same_symbol files=lemon/lemon.c props=L02
ensures same: result <> 0 <-> a = b \/ (#a->type = #MULTITERMINAL /\ #b->type = #MULTITERMINAL /\ #a->nsubsym = #b->nsubsym /\ forall j. 0 <= j < #a->nsubsym -> #a->subsym[j] = #b->subsym[j])
loop 1
inv i: 0 <= i /\ forall j. 0 <= j < i -> #a->subsym[j] = #b->subsym[j]
var: #a->nsubsym - i

== resolve_conflict files=lemon/lemon.c props=L03
singleton lemon:l_
requires pair: apx <> apy /\ #apx->sp = #apy->sp
requires kinds: (#apx->type = #SHIFT \/ #apx->type = #ERROR) /\ #apy->type = #REDUCE -> #apx->sp->prec >= 0 -> 0 <= #apx->sp->assoc <= 3
requires order: (#apx->type = #SHIFT /\ (#apy->type = #SHIFT \/ #apy->type = #REDUCE)) \/ (#apx->type = #ERROR /\ #apy->type = #REDUCE) \/ (#apx->type = #REDUCE /\ #apy->type = #REDUCE) \/ 4 <= #apx->type <= 8 \/ 4 <= #apy->type <= 8
ensures shift-shift: old #apx->type = #SHIFT /\ old #apy->type = #SHIFT -> result = 1 /\ #apx->type = #SHIFT /\ #apy->type = #SSCONFLICT
ensures undecided: (old #apx->type = #SHIFT \/ old #apx->type = #ERROR) /\ old #apy->type = #REDUCE -> (#apy->x.rp->precsym = 0 \/ #apx->sp->prec < 0 \/ #apy->x.rp->precsym->prec < 0) ->
   result = 1 /\ #apx->type = old #apx->type /\ #apy->type = #SRCONFLICT /\ l_nconflict_sr = old l_nconflict_sr + 1
ensures token-higher: (old #apx->type = #SHIFT \/ old #apx->type = #ERROR) /\ old #apy->type = #REDUCE -> #apy->x.rp->precsym <> 0 -> #apy->x.rp->precsym->prec >= 0 -> #apx->sp->prec > #apy->x.rp->precsym->prec ->
   result = 0 /\ #apx->type = old #apx->type /\ #apy->type = #RD_RESOLVED
ensures rule-higher: (old #apx->type = #SHIFT \/ old #apx->type = #ERROR) /\ old #apy->type = #REDUCE -> #apy->x.rp->precsym <> 0 -> #apx->sp->prec >= 0 -> #apx->sp->prec < #apy->x.rp->precsym->prec ->
   result = 0 /\ #apx->type = #SH_RESOLVED /\ #apy->type = #REDUCE
ensures right: (old #apx->type = #SHIFT \/ old #apx->type = #ERROR) /\ old #apy->type = #REDUCE -> #apy->x.rp->precsym <> 0 -> #apx->sp->prec >= 0 -> #apx->sp->prec = #apy->x.rp->precsym->prec -> #apx->sp->assoc = #RIGHT ->
   result = 0 /\ #apx->type = old #apx->type /\ #apy->type = #RD_RESOLVED
ensures left: (old #apx->type = #SHIFT \/ old #apx->type = #ERROR) /\ old #apy->type = #REDUCE -> #apy->x.rp->precsym <> 0 -> #apx->sp->prec >= 0 -> #apx->sp->prec = #apy->x.rp->precsym->prec -> #apx->sp->assoc = #LEFT ->
   result = 0 /\ #apx->type = #SH_RESOLVED /\ #apy->type = #REDUCE
ensures nonassoc: (old #apx->type = #SHIFT \/ old #apx->type = #ERROR) /\ old #apy->type = #REDUCE -> #apy->x.rp->precsym <> 0 -> #apx->sp->prec >= 0 -> #apx->sp->prec = #apy->x.rp->precsym->prec -> (#apx->sp->assoc = #NONE \/ #apx->sp->assoc = #PRECEDENCE) ->
   result = 0 /\ #apx->type = #ERROR /\ #apy->type = #RD_RESOLVED
ensures reduce-undecided: old #apx->type = #REDUCE /\ old #apy->type = #REDUCE -> (#apx->x.rp->precsym = 0 \/ #apy->x.rp->precsym = 0 \/ #apx->x.rp->precsym->prec < 0 \/ #apy->x.rp->precsym->prec < 0 \/ #apx->x.rp->precsym->prec = #apy->x.rp->precsym->prec) ->
   result = 1 /\ #apx->type = #REDUCE /\ #apy->type = #RRCONFLICT /\ l_nconflict_rr = old l_nconflict_rr + 1
ensures reduce-first: old #apx->type = #REDUCE /\ old #apy->type = #REDUCE -> #apx->x.rp->precsym <> 0 -> #apy->x.rp->precsym <> 0 -> #apy->x.rp->precsym->prec >= 0 -> #apx->x.rp->precsym->prec > #apy->x.rp->precsym->prec ->
   result = 0 /\ #apx->type = #REDUCE /\ #apy->type = #RD_RESOLVED
ensures reduce-second: old #apx->type = #REDUCE /\ old #apy->type = #REDUCE -> #apx->x.rp->precsym <> 0 -> #apy->x.rp->precsym <> 0 -> #apx->x.rp->precsym->prec >= 0 -> #apx->x.rp->precsym->prec < #apy->x.rp->precsym->prec ->
   result = 0 /\ #apx->type = #RD_RESOLVED /\ #apy->type = #REDUCE
ensures settled: (old #apx->type = #SH_RESOLVED \/ old #apx->type = #RD_RESOLVED \/ old #apx->type = #SSCONFLICT \/ old #apx->type = #SRCONFLICT \/ old #apx->type = #RRCONFLICT) -> result = 0 /\ #apx->type = old #apx->type /\ #apy->type = old #apy->type
ensures others: forall a. a <> apx -> a <> apy -> #heap(apx->type)[a] = (old #heap(apx->type))[a]
ensures counted: result = (l_nconflict_sr - old l_nconflict_sr) + (l_nconflict_rr - old l_nconflict_rr) + (if old #apx->type = #SHIFT /\ old #apy->type = #SHIFT then 1 else 0)

== FindRulePrecedences files=lemon/lemon.c props=L07
singleton lemon:l_
logic:
 (* the rules, as an arbitrary sequence *)
 function nd int : int
 constant nr : int
 (* whether a symbol can give its precedence, and which symbol it gives (a member, for a token class); defined by the preconditions *)
 predicate usable int
 function memb int : int
 (* the same when the last terminal counts *)
 predicate term int
 function subs int int : int
 function lastm int : int
requires members: forall s j. subs s j = #heap(l_rule->precsym->subsym[])[off #heap(l_rule->precsym->subsym)[s] j]
requires nz: forall k [nd k]. 0 <= k < nr -> nd k <> 0
requires list: nr >= 0 /\ l_rule = nd 0 /\ nd nr = 0 /\ forall k k1 [nd k, nd k1]. k1 = k + 1 -> 0 <= k < nr -> nd k <> 0 /\ #heap(l_rule->next)[nd k] = nd k1
requires distinct: forall i j. 0 <= i < j < nr -> nd i <> nd j
requires class-first: forall s j [usable s, subs s j]. #heap(l_rule->precsym->type)[s] = #MULTITERMINAL -> 0 <= j < #heap(l_rule->precsym->nsubsym)[s] -> #heap(l_rule->precsym->prec)[subs s j] >= 0 ->
   (forall i [subs s i]. 0 <= i < j -> #heap(l_rule->precsym->prec)[subs s i] < 0) -> usable s /\ memb s = subs s j
requires class-none: forall s [usable s]. #heap(l_rule->precsym->type)[s] = #MULTITERMINAL -> (forall j [subs s j]. 0 <= j < #heap(l_rule->precsym->nsubsym)[s] -> #heap(l_rule->precsym->prec)[subs s j] < 0) -> not (usable s)
requires token: forall s [usable s]. #heap(l_rule->precsym->type)[s] = #TERMINAL -> memb s = s /\ (usable s <-> #heap(l_rule->precsym->prec)[s] >= 0)
requires nonterminal: forall s. #heap(l_rule->precsym->type)[s] = #NONTERMINAL -> not (usable s) /\ not (term s)
requires types: forall s. 0 <= #heap(l_rule->precsym->type)[s] <= 2 /\ #TERMINAL = 0 /\ #NONTERMINAL = 1 /\ #MULTITERMINAL = 2
requires token-last: forall s. #heap(l_rule->precsym->type)[s] = #TERMINAL -> term s /\ lastm s = s
requires class-last: forall s. #heap(l_rule->precsym->type)[s] = #MULTITERMINAL -> (term s <-> #heap(l_rule->precsym->nsubsym)[s] > 0) /\ lastm s = #heap(l_rule->precsym->subsym[])[off #heap(l_rule->precsym->subsym)[s] (#heap(l_rule->precsym->nsubsym)[s] - 1)]
requires nonnull: (forall s [memb s]. usable s -> memb s <> 0) /\ (forall s [lastm s]. term s -> lastm s <> 0)
ghost let ref gk = 0 in
ghost let ref gp = 0 in
store use_sp: gp <- i;
ensures declared: forall k. 0 <= k < nr -> (old #heap(l_rule->precsym))[nd k] <> 0 -> #heap(l_rule->precsym)[nd k] = (old #heap(l_rule->precsym))[nd k]
ensures ignored: l_ignorePrec <> 0 -> forall k. 0 <= k < nr -> #heap(l_rule->precsym)[nd k] = (old #heap(l_rule->precsym))[nd k]
ensures first: l_ignorePrec = 0 -> l_yaccPrec = 0 -> forall k i. 0 <= k < nr -> (old #heap(l_rule->precsym))[nd k] = 0 -> 0 <= i < #heap(l_rule->nrhs)[nd k] -> usable #heap(l_rule->rhs[])[off #heap(l_rule->rhs)[nd k] i] ->
   (forall j. 0 <= j < i -> not (usable #heap(l_rule->rhs[])[off #heap(l_rule->rhs)[nd k] j])) -> #heap(l_rule->precsym)[nd k] = memb #heap(l_rule->rhs[])[off #heap(l_rule->rhs)[nd k] i]
ensures no-first: l_ignorePrec = 0 -> l_yaccPrec = 0 -> forall k. 0 <= k < nr -> (old #heap(l_rule->precsym))[nd k] = 0 -> 
   (forall j. 0 <= j < #heap(l_rule->nrhs)[nd k] -> not (usable #heap(l_rule->rhs[])[off #heap(l_rule->rhs)[nd k] j])) -> #heap(l_rule->precsym)[nd k] = 0
ensures last: l_ignorePrec = 0 -> l_yaccPrec <> 0 -> forall k i. 0 <= k < nr -> (old #heap(l_rule->precsym))[nd k] = 0 -> 0 <= i < #heap(l_rule->nrhs)[nd k] -> term #heap(l_rule->rhs[])[off #heap(l_rule->rhs)[nd k] i] ->
   (forall j. i < j < #heap(l_rule->nrhs)[nd k] -> not (term #heap(l_rule->rhs[])[off #heap(l_rule->rhs)[nd k] j])) -> let s = lastm #heap(l_rule->rhs[])[off #heap(l_rule->rhs)[nd k] i] in #heap(l_rule->precsym)[nd k] = (if #heap(l_rule->precsym->prec)[s] >= 0 then s else 0)
ensures no-last: l_ignorePrec = 0 -> l_yaccPrec <> 0 -> forall k. 0 <= k < nr -> (old #heap(l_rule->precsym))[nd k] = 0 -> 
   (forall j. 0 <= j < #heap(l_rule->nrhs)[nd k] -> not (term #heap(l_rule->rhs[])[off #heap(l_rule->rhs)[nd k] j])) -> #heap(l_rule->precsym)[nd k] = 0
loop 1
inv k: 0 <= gk <= nr /\ rp = nd gk
inv todo: forall k. gk <= k < nr -> #heap(l_rule->precsym)[nd k] = (old #heap(l_rule->precsym))[nd k]
inv declared: forall k. 0 <= k < gk -> (old #heap(l_rule->precsym))[nd k] <> 0 -> #heap(l_rule->precsym)[nd k] = (old #heap(l_rule->precsym))[nd k]
inv first: l_yaccPrec = 0 -> forall k i. 0 <= k < gk -> (old #heap(l_rule->precsym))[nd k] = 0 -> 0 <= i < #heap(l_rule->nrhs)[nd k] -> usable #heap(l_rule->rhs[])[off #heap(l_rule->rhs)[nd k] i] ->
   (forall j. 0 <= j < i -> not (usable #heap(l_rule->rhs[])[off #heap(l_rule->rhs)[nd k] j])) -> #heap(l_rule->precsym)[nd k] = memb #heap(l_rule->rhs[])[off #heap(l_rule->rhs)[nd k] i]
inv no-first: l_yaccPrec = 0 -> forall k. 0 <= k < gk -> (old #heap(l_rule->precsym))[nd k] = 0 -> 
   (forall j. 0 <= j < #heap(l_rule->nrhs)[nd k] -> not (usable #heap(l_rule->rhs[])[off #heap(l_rule->rhs)[nd k] j])) -> #heap(l_rule->precsym)[nd k] = 0
inv last: l_yaccPrec <> 0 -> forall k i. 0 <= k < gk -> (old #heap(l_rule->precsym))[nd k] = 0 -> 0 <= i < #heap(l_rule->nrhs)[nd k] -> term #heap(l_rule->rhs[])[off #heap(l_rule->rhs)[nd k] i] ->
   (forall j. i < j < #heap(l_rule->nrhs)[nd k] -> not (term #heap(l_rule->rhs[])[off #heap(l_rule->rhs)[nd k] j])) -> let s = lastm #heap(l_rule->rhs[])[off #heap(l_rule->rhs)[nd k] i] in #heap(l_rule->precsym)[nd k] = (if #heap(l_rule->precsym->prec)[s] >= 0 then s else 0)
inv no-last: l_yaccPrec <> 0 -> forall k. 0 <= k < gk -> (old #heap(l_rule->precsym))[nd k] = 0 -> 
   (forall j. 0 <= j < #heap(l_rule->nrhs)[nd k] -> not (term #heap(l_rule->rhs[])[off #heap(l_rule->rhs)[nd k] j])) -> #heap(l_rule->precsym)[nd k] = 0
body: assert { nd (gk + 1) = nd (gk + 1) };
after_body: gk <- gk + 1
var: nr - gk
loop 2
inv i: 0 <= i
inv none: use_sp = 0 -> l_yaccPrec = 0 -> forall j. 0 <= j < i -> not (usable #heap(l_rule->rhs[])[off #rp->rhs j])
inv some: use_sp <> 0 -> l_yaccPrec = 0 -> 0 < i <= #rp->nrhs /\ usable #heap(l_rule->rhs[])[off #rp->rhs (i - 1)] /\ use_sp = memb #heap(l_rule->rhs[])[off #rp->rhs (i - 1)] /\ #use_sp->prec >= 0 /\ forall j. 0 <= j < i - 1 -> not (usable #heap(l_rule->rhs[])[off #rp->rhs j])
inv no-last: use_sp = 0 -> l_yaccPrec <> 0 -> forall j. 0 <= j < i -> not (term #heap(l_rule->rhs[])[off #rp->rhs j])
inv last: use_sp <> 0 -> l_yaccPrec <> 0 -> 0 <= gp < i /\ gp < #rp->nrhs /\ term #heap(l_rule->rhs[])[off #rp->rhs gp] /\ use_sp = lastm #heap(l_rule->rhs[])[off #rp->rhs gp] /\ forall j. gp < j < i -> not (term #heap(l_rule->rhs[])[off #rp->rhs j])
var: #rp->nrhs - i
loop 3
inv j: 0 <= j /\ (j = 0 \/ j <= #sp->nsubsym)
inv frame: l_yaccPrec = 0 -> use_sp = 0 /\ forall i. 0 <= i < j -> #heap(l_rule->precsym->prec)[subs sp i] < 0
inv yacc: l_yaccPrec <> 0 -> (j = 0 -> use_sp = (use_sp at L3) /\ gp = (gp at L3)) /\ (j > 0 -> gp = i /\ use_sp = #heap(l_rule->precsym->subsym[])[off #sp->subsym (j - 1)])
var: #sp->nsubsym - j
body: assert { subs sp j = #sp->subsym[j] };
after: assert { term sp <-> #sp->nsubsym > 0 };
 assert { l_yaccPrec <> 0 -> j >= #sp->nsubsym };
 assert { l_yaccPrec <> 0 -> j > 0 -> j = #sp->nsubsym };

== compute_action files=lemon/lemon.c props=L04
singleton lemon:l_
ensures shift: #ap->type = #SHIFT -> result = #ap->x.stp->statenum
ensures shift-reduce: #ap->type = #SHIFTREDUCE -> result = #ap->x.rp->iRule + (if #ap->sp->index >= l_nterminal /\ (l_errsym = 0 \/ #ap->sp->index <> #l_errsym->index) then l_minReduce else l_minShiftReduce)
ensures reduce: #ap->type = #REDUCE -> result = l_minReduce + #ap->x.rp->iRule
ensures error: #ap->type = #ERROR -> result = l_errAction
ensures accept: #ap->type = #ACCEPT -> result = l_accAction
ensures none: #ap->type <> #SHIFT -> #ap->type <> #SHIFTREDUCE -> #ap->type <> #REDUCE -> #ap->type <> #ERROR -> #ap->type <> #ACCEPT -> result = -1

== acttab_action_size files=lemon/lemon.c props=L04
requires n: #p->nAction >= 0
ensures cut: 0 <= result <= #p->nAction /\ forall k. result <= k < #p->nAction -> #heap(p->aAction->lookahead)[off #p->aAction k] < 0
ensures tight: result > 0 -> #heap(p->aAction->lookahead)[off #p->aAction (result - 1)] >= 0
loop 1
inv n: 0 <= n <= #p->nAction /\ forall k. n <= k < #p->nAction -> #heap(p->aAction->lookahead)[off #p->aAction k] < 0
var: n
