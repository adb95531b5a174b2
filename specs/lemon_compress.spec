== CompressTables files=lemon/lemon.c props=L09
singleton lemon:l_
opt merge pNextState=stp
extern Symbol_new new_default val
use links.Links
use compress.Compress
logic:
 (* per state: its default rule and the entry that holds it (0: none); per node: actions before the last pass, and the node whose action it ends up with *)
 val ref gD : map int int
 val ref gR : map int int
 val ref gT : map int int
 val ref gX : map int int
 val ref gS : map int int
 val ref gC : map int int
requires states: l_nstate >= 0 /\ forall i. 0 <= i < l_nstate -> #l_sorted[i] <> 0 /\ sid #l_sorted[i] = i /\ #heap(l_sorted[]->autoReduce)[#l_sorted[i]] = 0
requires lists: forall i. 0 <= i < l_nstate -> owned #heap(l_sorted[]->ap->next) #heap(l_sorted[]->ap)[#l_sorted[i]] i /\ short #heap(l_sorted[]->ap->next) #heap(l_sorted[]->ap)[#l_sorted[i]]
requires shifts: forall q. 0 <= own q < l_nstate -> #heap(l_sorted[]->ap->type)[q] = #SHIFT -> let s = #heap(l_sorted[]->ap->x.stp)[q] in 0 <= sid s < l_nstate /\ #l_sorted[sid s] = s
requires nodes: forall q. 0 <= own q < l_nstate -> q > 0
ensures lists: forall i. 0 <= i < l_nstate -> owned #heap(l_sorted[]->ap->next) #heap(l_sorted[]->ap)[#l_sorted[i]] i
ensures default: forall j. 0 <= j < l_nstate -> gD[j] <> 0 -> own gD[j] = j /\ (old #heap(l_sorted[]->ap->type))[gD[j]] = #REDUCE /\ #heap(l_sorted[]->ap->type)[gD[j]] = #REDUCE /\ #heap(l_sorted[]->ap->sp)[gD[j]] = dsym /\ #heap(l_sorted[]->ap->x.rp)[gD[j]] = gR[j] /\ #heap(l_sorted[]->ap->x.rp->lhsStart)[gR[j]] = 0
ensures no-wildcard: forall q. 0 <= own q < l_nstate -> gD[own q] <> 0 -> (old #heap(l_sorted[]->ap->type))[q] = #SHIFT -> (old #heap(l_sorted[]->ap->sp))[q] <> l_wildcard
ensures reductions: forall q. 0 <= own q < l_nstate -> (old #heap(l_sorted[]->ap->type))[q] = #REDUCE -> #heap(l_sorted[]->ap->x.rp)[q] = (old #heap(l_sorted[]->ap->x.rp))[q] /\
   ((#heap(l_sorted[]->ap->type)[q] = #REDUCE /\ (#heap(l_sorted[]->ap->sp)[q] = (old #heap(l_sorted[]->ap->sp))[q] \/ q = gD[own q])) \/ (#heap(l_sorted[]->ap->type)[q] = #NOT_USED /\ gD[own q] <> 0 /\ #heap(l_sorted[]->ap->x.rp)[q] = gR[own q]))
ensures auto: forall j. 0 <= j < l_nstate -> #heap(l_sorted[]->autoReduce)[#l_sorted[j]] <> 0 -> gD[j] <> 0 /\ #heap(l_sorted[]->pDfltReduce)[#l_sorted[j]] = gR[j] /\
   forall q. own q = j -> (old #heap(l_sorted[]->ap->type))[q] <> #SHIFT /\ (old #heap(l_sorted[]->ap->type))[q] <> #ERROR /\ ((old #heap(l_sorted[]->ap->type))[q] = #REDUCE -> (old #heap(l_sorted[]->ap->x.rp))[q] = gR[j])
ensures shift: forall q. 0 <= own q < l_nstate -> (old #heap(l_sorted[]->ap->type))[q] = #SHIFT -> gS[q] = (old #heap(l_sorted[]->ap->x.stp))[q] /\ (if #heap(l_sorted[]->autoReduce)[gS[q]] <> 0 /\ #heap(l_sorted[]->pDfltReduce)[gS[q]] <> 0 then gT[q] = #SHIFTREDUCE /\ gX[q] = #heap(l_sorted[]->pDfltReduce)[gS[q]] else gT[q] = #SHIFT)
ensures others: forall q. 0 <= own q < l_nstate -> (old #heap(l_sorted[]->ap->type))[q] <> #SHIFT -> (old #heap(l_sorted[]->ap->type))[q] <> #REDUCE -> gT[q] = (old #heap(l_sorted[]->ap->type))[q] /\ gX[q] = (old #heap(l_sorted[]->ap->x.rp))[q]
ensures symbols: forall q. 0 <= own q < l_nstate -> q <> gD[own q] -> #heap(l_sorted[]->ap->sp)[q] = (old #heap(l_sorted[]->ap->sp))[q]
ensures units: forall q. 0 <= own q < l_nstate -> #heap(l_sorted[]->ap->type)[q] = gT[gC[q]] /\ #heap(l_sorted[]->ap->x.rp)[q] = gX[gC[q]] /\ #heap(l_sorted[]->ap->x.stp)[q] = gS[gC[q]] /\ (gC[q] = q \/ (gT[q] = #SHIFTREDUCE /\ #heap(l_sorted[]->ap->sp->index)[#heap(l_sorted[]->ap->sp)[q]] >= l_nterminal /\
   chain gT gX #heap(l_sorted[]->ap->sp) #heap(l_sorted[]->ap->x.rp->noCode) #heap(l_sorted[]->ap->x.rp->nrhs) #heap(l_sorted[]->ap->x.rp->lhs) #SHIFTREDUCE q gC[q]))
entry: gD <- (fun _ -> 0);
ghost let ref gl = Nil in
ghost let ref gk = Nil in
ghost let ref gw = 0 in
ghost let ref ht : map int int = #heap(l_sorted[]->ap->type) in
ghost let ref hx : map int int = #heap(l_sorted[]->ap->x.rp) in
exit: assert { forall j. 0 <= j < l_nstate -> gD[j] <> 0 -> gC[gD[j]] = gD[j] };
after_call Symbol_new: gD <- mset gD i ap; gR <- mset gR i rbest;
loop 1
inv i: 0 <= i <= l_nstate
inv lists: forall j. 0 <= j < l_nstate -> owned #heap(l_sorted[]->ap->next) #heap(l_sorted[]->ap)[#l_sorted[j]] j
inv short: forall j. i <= j < l_nstate -> short #heap(l_sorted[]->ap->next) #heap(l_sorted[]->ap)[#l_sorted[j]]
inv todo: forall q. i <= own q < l_nstate -> #heap(l_sorted[]->ap->type)[q] = (old #heap(l_sorted[]->ap->type))[q] /\ #heap(l_sorted[]->ap->sp)[q] = (old #heap(l_sorted[]->ap->sp))[q]
inv todo-state: forall j. i <= j < l_nstate -> gD[j] = 0 /\ #heap(l_sorted[]->autoReduce)[#l_sorted[j]] = 0
inv other: forall q. 0 <= own q < l_nstate -> (old #heap(l_sorted[]->ap->type))[q] <> #REDUCE -> #heap(l_sorted[]->ap->type)[q] = (old #heap(l_sorted[]->ap->type))[q]
inv default: forall j. 0 <= j < i -> gD[j] <> 0 -> own gD[j] = j /\ (old #heap(l_sorted[]->ap->type))[gD[j]] = #REDUCE /\ #heap(l_sorted[]->ap->type)[gD[j]] = #REDUCE /\ #heap(l_sorted[]->ap->sp)[gD[j]] = dsym /\ #heap(l_sorted[]->ap->x.rp)[gD[j]] = gR[j] /\ #heap(l_sorted[]->ap->x.rp->lhsStart)[gR[j]] = 0
inv reductions: forall q. 0 <= own q < i -> (old #heap(l_sorted[]->ap->type))[q] = #REDUCE -> #heap(l_sorted[]->ap->x.rp)[q] = (old #heap(l_sorted[]->ap->x.rp))[q] /\
   ((#heap(l_sorted[]->ap->type)[q] = #REDUCE /\ (#heap(l_sorted[]->ap->sp)[q] = (old #heap(l_sorted[]->ap->sp))[q] \/ q = gD[own q])) \/ (#heap(l_sorted[]->ap->type)[q] = #NOT_USED /\ gD[own q] <> 0 /\ #heap(l_sorted[]->ap->x.rp)[q] = gR[own q]))
inv auto: forall j. 0 <= j < i -> #heap(l_sorted[]->autoReduce)[#l_sorted[j]] <> 0 -> gD[j] <> 0 /\ #heap(l_sorted[]->pDfltReduce)[#l_sorted[j]] = gR[j] /\
   forall q. own q = j -> (old #heap(l_sorted[]->ap->type))[q] <> #SHIFT /\ (old #heap(l_sorted[]->ap->type))[q] <> #ERROR /\ ((old #heap(l_sorted[]->ap->type))[q] = #REDUCE -> (old #heap(l_sorted[]->ap->x.rp))[q] = gR[j])
inv no-wildcard: forall q. 0 <= own q < i -> gD[own q] <> 0 -> (old #heap(l_sorted[]->ap->type))[q] = #SHIFT -> (old #heap(l_sorted[]->ap->sp))[q] <> l_wildcard
inv symbols: forall q. 0 <= own q < i -> q <> gD[own q] -> #heap(l_sorted[]->ap->sp)[q] = (old #heap(l_sorted[]->ap->sp))[q]
loop 2
before: gl <- lof #heap(l_sorted[]->ap->next) ap;
inv list: isl #heap(l_sorted[]->ap->next) ap gl /\ forall q. mem q gl -> own q = i
inv wildcard: usesWildcard = 0 -> forall q. own q = i -> mem q gl \/ #heap(l_sorted[]->ap->type)[q] <> #SHIFT \/ #heap(l_sorted[]->ap->sp)[q] <> l_wildcard
inv best: nbest >= 0 /\ (nbest >= 1 -> own gw = i /\ #heap(l_sorted[]->ap->type)[gw] = #REDUCE /\ #heap(l_sorted[]->ap->x.rp)[gw] = rbest /\ #heap(l_sorted[]->ap->x.rp->lhsStart)[rbest] = 0)
body: assert { gl = Cons ap (tl gl) }; gl <- tl gl;
after_body: if #heap(l_sorted[]->ap->type)[ap] = #REDUCE && #heap(l_sorted[]->ap->x.rp)[ap] = rbest then gw <- ap;
loop 3
inv none: true
loop 4
before: gl <- lof #heap(l_sorted[]->ap->next) ap;
inv list: isl #heap(l_sorted[]->ap->next) ap gl /\ dist gl /\ forall q. mem q gl -> own q = i
inv first: forall q. own q = i -> mem q gl \/ not (#heap(l_sorted[]->ap->type)[q] = #REDUCE /\ #heap(l_sorted[]->ap->x.rp)[q] = rbest)
body: assert { gl = Cons ap (tl gl) }; gl <- tl gl;
after: assert { ap = 0 -> gl = Nil };
loop 5
inv list: isl #heap(l_sorted[]->ap->next) ap gl /\ dist gl /\ forall q. mem q gl -> own q = i /\ q <> gD[i]
inv marked: forall q. #heap(l_sorted[]->ap->type)[q] = if (#heap(l_sorted[]->ap->type) at L5)[q] = #REDUCE /\ #heap(l_sorted[]->ap->x.rp)[q] = rbest /\ own q = i /\ q <> gD[i] /\ not (mem q gl) then #NOT_USED else (#heap(l_sorted[]->ap->type) at L5)[q]
body: assert { gl = Cons ap (tl gl) }; gl <- tl gl;
after: assert { gl = Nil };
loop 6
before: assert { forall j. 0 <= j < l_nstate -> j <> i -> owned #heap(l_sorted[]->ap->next) #heap(l_sorted[]->ap)[#l_sorted[j]] j /\ lof #heap(l_sorted[]->ap->next) #heap(l_sorted[]->ap)[#l_sorted[j]] = lof (#heap(l_sorted[]->ap->next) at L5) #heap(l_sorted[]->ap)[#l_sorted[j]] };
 gl <- lof #heap(l_sorted[]->ap->next) ap;
inv list: isl #heap(l_sorted[]->ap->next) ap gl /\ forall q. mem q gl -> own q = i
inv kinds: forall q. own q = i -> mem q gl \/ (#heap(l_sorted[]->ap->type)[q] <> #SHIFT /\ #heap(l_sorted[]->ap->type)[q] <> #ERROR /\ (#heap(l_sorted[]->ap->type)[q] = #REDUCE -> #heap(l_sorted[]->ap->x.rp)[q] = rbest))
body: assert { gl = Cons ap (tl gl) }; gl <- tl gl;
after: assert { ap = 0 -> gl = Nil };
loop 7
inv i: 0 <= i <= l_nstate
inv converted: forall q. 0 <= own q < l_nstate -> if (#heap(l_sorted[]->ap->type) at L7)[q] = #SHIFT /\ (own q < i) /\ #heap(l_sorted[]->autoReduce)[#heap(l_sorted[]->ap->x.stp)[q]] <> 0 /\ #heap(l_sorted[]->pDfltReduce)[#heap(l_sorted[]->ap->x.stp)[q]] <> 0 then #heap(l_sorted[]->ap->type)[q] = #SHIFTREDUCE /\ #heap(l_sorted[]->ap->x.rp)[q] = #heap(l_sorted[]->pDfltReduce)[#heap(l_sorted[]->ap->x.stp)[q]] else #heap(l_sorted[]->ap->type)[q] = (#heap(l_sorted[]->ap->type) at L7)[q] /\ #heap(l_sorted[]->ap->x.rp)[q] = (old #heap(l_sorted[]->ap->x.rp))[q]
loop 8
before: gl <- lof #heap(l_sorted[]->ap->next) ap;
inv list: isl #heap(l_sorted[]->ap->next) ap gl /\ dist gl /\ forall q. mem q gl -> own q = i
inv converted: forall q. 0 <= own q < l_nstate -> if (#heap(l_sorted[]->ap->type) at L7)[q] = #SHIFT /\ (own q < i \/ (own q = i /\ not (mem q gl))) /\ #heap(l_sorted[]->autoReduce)[#heap(l_sorted[]->ap->x.stp)[q]] <> 0 /\ #heap(l_sorted[]->pDfltReduce)[#heap(l_sorted[]->ap->x.stp)[q]] <> 0 then #heap(l_sorted[]->ap->type)[q] = #SHIFTREDUCE /\ #heap(l_sorted[]->ap->x.rp)[q] = #heap(l_sorted[]->pDfltReduce)[#heap(l_sorted[]->ap->x.stp)[q]] else #heap(l_sorted[]->ap->type)[q] = (#heap(l_sorted[]->ap->type) at L7)[q] /\ #heap(l_sorted[]->ap->x.rp)[q] = (old #heap(l_sorted[]->ap->x.rp))[q]
body: assert { gl = Cons ap (tl gl) }; gl <- tl gl;
 assert { own ap = i /\ not (mem ap gl) /\ #heap(l_sorted[]->ap->type)[ap] = (#heap(l_sorted[]->ap->type) at L7)[ap] /\ #heap(l_sorted[]->ap->x.rp)[ap] = (old #heap(l_sorted[]->ap->x.rp))[ap] };
 ht <- #heap(l_sorted[]->ap->type); hx <- #heap(l_sorted[]->ap->x.rp);
after_body: assert { forall q. q <> ap -> #heap(l_sorted[]->ap->type)[q] = ht[q] /\ #heap(l_sorted[]->ap->x.rp)[q] = hx[q] };
 assert { if (#heap(l_sorted[]->ap->type) at L7)[ap] = #SHIFT /\ #heap(l_sorted[]->autoReduce)[#heap(l_sorted[]->ap->x.stp)[ap]] <> 0 /\ #heap(l_sorted[]->pDfltReduce)[#heap(l_sorted[]->ap->x.stp)[ap]] <> 0 then #heap(l_sorted[]->ap->type)[ap] = #SHIFTREDUCE /\ #heap(l_sorted[]->ap->x.rp)[ap] = #heap(l_sorted[]->pDfltReduce)[#heap(l_sorted[]->ap->x.stp)[ap]] else #heap(l_sorted[]->ap->type)[ap] = (#heap(l_sorted[]->ap->type) at L7)[ap] /\ #heap(l_sorted[]->ap->x.rp)[ap] = (old #heap(l_sorted[]->ap->x.rp))[ap] };
after: assert { gl = Nil };
loop 9
before: gT <- #heap(l_sorted[]->ap->type); gX <- #heap(l_sorted[]->ap->x.rp); gS <- #heap(l_sorted[]->ap->x.stp); gC <- (fun q -> q);
 assert { forall q. 0 <= own q < l_nstate -> gT[q] = (if (#heap(l_sorted[]->ap->type) at L7)[q] = #SHIFT then gT[q] else (#heap(l_sorted[]->ap->type) at L7)[q]) /\ ((#heap(l_sorted[]->ap->type) at L7)[q] <> #SHIFT -> gX[q] = (old #heap(l_sorted[]->ap->x.rp))[q]) };
 assert { forall j. 0 <= j < l_nstate -> gD[j] <> 0 -> gT[gD[j]] = #REDUCE /\ gX[gD[j]] = gR[j] };
inv i: 0 <= i <= l_nstate
inv units: forall q. 0 <= own q < l_nstate -> #heap(l_sorted[]->ap->type)[q] = gT[gC[q]] /\ #heap(l_sorted[]->ap->x.rp)[q] = gX[gC[q]] /\ #heap(l_sorted[]->ap->x.stp)[q] = gS[gC[q]] /\ (gC[q] = q \/ (gT[q] = #SHIFTREDUCE /\ #heap(l_sorted[]->ap->sp->index)[#heap(l_sorted[]->ap->sp)[q]] >= l_nterminal /\
   chain gT gX #heap(l_sorted[]->ap->sp) #heap(l_sorted[]->ap->x.rp->noCode) #heap(l_sorted[]->ap->x.rp->nrhs) #heap(l_sorted[]->ap->x.rp->lhs) #SHIFTREDUCE q gC[q])) /\ own gC[q] = own q
loop 10
before: gl <- lof #heap(l_sorted[]->ap->next) ap;
inv list: isl #heap(l_sorted[]->ap->next) ap gl /\ dist gl /\ forall q. mem q gl -> own q = i
inv units: forall q. 0 <= own q < l_nstate -> #heap(l_sorted[]->ap->type)[q] = gT[gC[q]] /\ #heap(l_sorted[]->ap->x.rp)[q] = gX[gC[q]] /\ #heap(l_sorted[]->ap->x.stp)[q] = gS[gC[q]] /\ (gC[q] = q \/ (gT[q] = #SHIFTREDUCE /\ #heap(l_sorted[]->ap->sp->index)[#heap(l_sorted[]->ap->sp)[q]] >= l_nterminal /\
   chain gT gX #heap(l_sorted[]->ap->sp) #heap(l_sorted[]->ap->x.rp->noCode) #heap(l_sorted[]->ap->x.rp->nrhs) #heap(l_sorted[]->ap->x.rp->lhs) #SHIFTREDUCE q gC[q])) /\ own gC[q] = own q
body: assert { gl = Cons ap (tl gl) };
after_body: assert { isl #heap(l_sorted[]->ap->next) nextap gl \/ isl #heap(l_sorted[]->ap->next) nextap (tl gl) };
 assert { nextap = ap -> own ap2 = own gC[ap] /\ link gT gX #heap(l_sorted[]->ap->sp) #heap(l_sorted[]->ap->x.rp->noCode) #heap(l_sorted[]->ap->x.rp->nrhs) #heap(l_sorted[]->ap->x.rp->lhs) #SHIFTREDUCE gC[ap] ap2 };
 assert { nextap = ap -> chain gT gX #heap(l_sorted[]->ap->sp) #heap(l_sorted[]->ap->x.rp->noCode) #heap(l_sorted[]->ap->x.rp->nrhs) #heap(l_sorted[]->ap->x.rp->lhs) #SHIFTREDUCE ap ap2 };
 assert { nextap = ap -> chain gT gX #heap(l_sorted[]->ap->sp) #heap(l_sorted[]->ap->x.rp->noCode) #heap(l_sorted[]->ap->x.rp->nrhs) #heap(l_sorted[]->ap->x.rp->lhs) #SHIFTREDUCE ap gC[ap2] };
 if nextap = ap then gC <- mset gC ap gC[ap2] else gl <- tl gl;
loop 11
before: gk <- lof #heap(l_sorted[]->ap->next) ap2;
inv list: isl #heap(l_sorted[]->ap->next) ap2 gk /\ forall q. mem q gk -> own q = i
body: assert { gk = Cons ap2 (tl gk) }; gk <- tl gk;
after: assert { ap2 <> 0 -> own ap2 = i };
