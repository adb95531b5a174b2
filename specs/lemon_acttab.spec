== acttab_action files=lemon/lemon.c props=L04
requires storage: 0 <= #p->nLookahead <= #p->nLookaheadAlloc /\ (#p->aLookahead = 0 -> #p->nLookaheadAlloc = 0) /\ (#p->aLookahead <> 0 -> #len(p->aLookahead)[#p->aLookahead] = #p->nLookaheadAlloc)
ensures storage: 0 <= #p->nLookahead <= #p->nLookaheadAlloc /\ #p->aLookahead <> 0 /\ #len(p->aLookahead)[#p->aLookahead] = #p->nLookaheadAlloc
ensures appended: #p->nLookahead = old #p->nLookahead + 1 /\ #heap(p->aLookahead->lookahead)[off #p->aLookahead (old #p->nLookahead)] = lookahead /\ #heap(p->aLookahead->action)[off #p->aLookahead (old #p->nLookahead)] = action
ensures kept: forall j. 0 <= j < old #p->nLookahead -> #heap(p->aLookahead->lookahead)[off #p->aLookahead j] = (old #heap(p->aLookahead->lookahead))[off (old #p->aLookahead) j] /\ #heap(p->aLookahead->action)[off #p->aLookahead j] = (old #heap(p->aLookahead->action))[off (old #p->aLookahead) j]
ensures first: old #p->nLookahead = 0 -> #p->mnLookahead = lookahead /\ #p->mxLookahead = lookahead /\ #p->mnAction = action
ensures least: old #p->nLookahead > 0 -> #p->mnLookahead = (if lookahead < old #p->mnLookahead then lookahead else old #p->mnLookahead) /\ #p->mnAction = (if lookahead < old #p->mnLookahead then action else old #p->mnAction)
ensures greatest: old #p->nLookahead > 0 -> #p->mxLookahead = (if lookahead > old #p->mxLookahead then lookahead else old #p->mxLookahead)

== acttab_insert files=lemon/lemon.c props=L04
use hits.Hits
opt sp
logic:
 function ac int : int
requires row: nl = #p->nLookahead /\ nl > 0 /\ forall j. 0 <= j < nl -> #heap(p->aLookahead->lookahead)[off #p->aLookahead j] = la j /\ #heap(p->aLookahead->action)[off #p->aLookahead j] = ac j
requires distinct: forall j k. 0 <= j < k < nl -> la j <> la k
requires range: forall j. 0 <= j < nl -> #p->mnLookahead <= la j <= #p->mxLookahead
requires least: exists j. 0 <= j < nl /\ la j = #p->mnLookahead /\ ac j = #p->mnAction
requires codes: 0 <= #p->mnLookahead /\ #p->mxLookahead < #p->nsymbol /\ 0 <= #p->nterminal <= #p->nsymbol
requires safe: makeItSafe <> 0 -> #p->mxLookahead < #p->nterminal
requires storage: 0 <= #p->nAction /\ (#p->aAction = 0 -> #p->nActionAlloc = 0) /\ (#p->aAction <> 0 -> #len(p->aAction)[#p->aAction] = #p->nActionAlloc /\ #p->aAction > 0) /\ #p->nActionAlloc >= 0 /\ #p->nAction <= #p->nActionAlloc
requires entries: forall k. 0 <= k < #p->nAction -> #heap(p->aAction->lookahead)[off #p->aAction k] >= -1
requires unused: forall k. #p->nAction <= k < #p->nActionAlloc -> #heap(p->aAction->lookahead)[off #p->aAction k] = -1
ensures storage: #p->nAction <= #p->nActionAlloc /\ #p->aAction > 0 /\ #len(p->aAction)[#p->aAction] = #p->nActionAlloc
ensures unused: forall k. #p->nAction <= k < #p->nActionAlloc -> #heap(p->aAction->lookahead)[off #p->aAction k] = -1
ensures entries: forall k. 0 <= k < #p->nAction -> #heap(p->aAction->lookahead)[off #p->aAction k] >= -1
ensures emptied: #p->nLookahead = 0
ensures stored: forall j. 0 <= j < nl -> 0 <= result + la j < #p->nAction /\ #heap(p->aAction->lookahead)[off #p->aAction (result + la j)] = la j /\ #heap(p->aAction->action)[off #p->aAction (result + la j)] = ac j
ensures no-other: forall c. 0 <= c -> 0 <= result + c < #p->nAction -> #heap(p->aAction->lookahead)[off #p->aAction (result + c)] = c -> exists j. 0 <= j < nl /\ la j = c
ensures kept: #p->nAction >= old #p->nAction /\ forall k. 0 <= k < old #p->nAction -> (old #heap(p->aAction->lookahead))[off (old #p->aAction) k] >= 0 -> #heap(p->aAction->lookahead)[off #p->aAction k] = (old #heap(p->aAction->lookahead))[off (old #p->aAction) k] /\ #heap(p->aAction->action)[off #p->aAction k] = (old #heap(p->aAction->action))[off (old #p->aAction) k]
ensures only: forall k. 0 <= k < #p->nAction -> #heap(p->aAction->lookahead)[off #p->aAction k] >= 0 -> (k < old #p->nAction /\ (old #heap(p->aAction->lookahead))[off (old #p->aAction) k] >= 0) \/ exists j. 0 <= j < nl /\ k = result + la j
ensures in-bounds: makeItSafe <> 0 -> result >= 0 /\ result + #p->mnLookahead + #p->nterminal < #p->nAction
loop 1
inv i: old #p->nActionAlloc <= i <= #p->nActionAlloc
inv old: forall k. 0 <= k < old #p->nActionAlloc -> #heap(p->aAction->lookahead)[off #p->aAction k] = (old #heap(p->aAction->lookahead))[off (old #p->aAction) k] /\ #heap(p->aAction->action)[off #p->aAction k] = (old #heap(p->aAction->action))[off (old #p->aAction) k]
inv new: forall k. old #p->nActionAlloc <= k < i -> #heap(p->aAction->lookahead)[off #p->aAction k] = -1
var: #p->nActionAlloc - i
loop 2
before: assert { forall k. 0 <= k < old #p->nAction -> #heap(p->aAction->lookahead)[off #p->aAction k] = (old #heap(p->aAction->lookahead))[off (old #p->aAction) k] /\ #heap(p->aAction->action)[off #p->aAction k] = (old #heap(p->aAction->action))[off (old #p->aAction) k] };
 assert { forall k. #p->nAction <= k < #p->nActionAlloc -> #heap(p->aAction->lookahead)[off #p->aAction k] = -1 };
 assert { #p->nAction + 2 * #p->nsymbol + 1 < #p->nActionAlloc };
inv i: i < #p->nAction /\ (i >= end_ - 1 \/ i = #p->nAction - 1)
var: i - end_ + 1
loop 3
inv j: 0 <= j <= nl
inv same: forall x. 0 <= x < j -> 0 <= la x - #p->mnLookahead + i < #p->nAction /\ #heap(p->aAction->lookahead)[off #p->aAction (la x - #p->mnLookahead + i)] = la x /\ #heap(p->aAction->action)[off #p->aAction (la x - #p->mnLookahead + i)] = ac x
var: nl - j
loop 4
before: assert { forall x. 0 <= x < nl -> hit #heap(p->aAction->lookahead) #p->aAction (i - #p->mnLookahead) (i - #p->mnLookahead + la x) /\ 0 <= i - #p->mnLookahead + la x < #p->nAction };
inv j: 0 <= j <= #p->nAction
inv n: n = hits #heap(p->aAction->lookahead) #p->aAction (i - #p->mnLookahead) j
end: assert { hits #heap(p->aAction->lookahead) #p->aAction (i - #p->mnLookahead) j = hits #heap(p->aAction->lookahead) #p->aAction (i - #p->mnLookahead) j };
after: exact #heap(p->aAction->lookahead) #p->aAction (i - #p->mnLookahead) #p->nAction;
 assert { n = nl -> forall k. 0 <= k < #p->nAction -> hit #heap(p->aAction->lookahead) #p->aAction (i - #p->mnLookahead) k -> exists x. 0 <= x < nl /\ k = i - #p->mnLookahead + la x };
 assert { forall k. 0 <= k < #p->nAction -> #heap(p->aAction->lookahead)[off #p->aAction k] >= 0 -> #heap(p->aAction->lookahead)[off #p->aAction k] = k + #p->mnLookahead - i -> hit #heap(p->aAction->lookahead) #p->aAction (i - #p->mnLookahead) k };
 assert { n = nl -> forall k. 0 <= k < #p->nAction -> #heap(p->aAction->lookahead)[off #p->aAction k] >= 0 -> #heap(p->aAction->lookahead)[off #p->aAction k] = k + #p->mnLookahead - i -> exists x. 0 <= x < nl /\ k = la x - #p->mnLookahead + i };
var: #p->nAction - j
loop 5
inv i: (if makeItSafe <> 0 then #p->mnLookahead else 0) <= i <= #p->nAction + #p->mnLookahead + 1
var: #p->nActionAlloc - i
loop 6
inv j: 0 <= j <= nl
inv free: forall x. 0 <= x < j -> 0 <= la x - #p->mnLookahead + i /\ #heap(p->aAction->lookahead)[off #p->aAction (la x - #p->mnLookahead + i)] < 0
inv end: i = #p->nAction + #p->mnLookahead + 1 -> forall x. 0 <= x < nl -> 0 <= la x - #p->mnLookahead + i /\ #heap(p->aAction->lookahead)[off #p->aAction (la x - #p->mnLookahead + i)] < 0
var: nl - j
loop 7
inv j: 0 <= j <= #p->nAction
inv none: forall x. 0 <= x < j -> #heap(p->aAction->lookahead)[off #p->aAction x] <> x + #p->mnLookahead - i
inv end: i = #p->nAction + #p->mnLookahead + 1 -> forall x. 0 <= x < #p->nAction -> #heap(p->aAction->lookahead)[off #p->aAction x] <> x + #p->mnLookahead - i
var: #p->nAction - j
loop 8
before: assert { i <= #p->nAction + #p->mnLookahead + 1 };
 assert { forall x. 0 <= x < nl -> 0 <= la x - #p->mnLookahead + i < #p->nActionAlloc };
 assert { forall x. 0 <= x < nl -> #heap(p->aAction->lookahead)[off #p->aAction (la x - #p->mnLookahead + i)] < 0 \/ (#heap(p->aAction->lookahead)[off #p->aAction (la x - #p->mnLookahead + i)] = la x /\ #heap(p->aAction->action)[off #p->aAction (la x - #p->mnLookahead + i)] = ac x) };
 assert { forall k. 0 <= k < #p->nAction -> #heap(p->aAction->lookahead)[off #p->aAction k] >= 0 -> #heap(p->aAction->lookahead)[off #p->aAction k] = k + #p->mnLookahead - i -> exists x. 0 <= x < nl /\ k = la x - #p->mnLookahead + i };
inv j: 0 <= j <= nl
inv n: (#p->nAction at L8) <= #p->nAction <= #p->nActionAlloc
inv done: forall x. 0 <= x < j -> la x - #p->mnLookahead + i < #p->nAction /\ #heap(p->aAction->lookahead)[off #p->aAction (la x - #p->mnLookahead + i)] = la x /\ #heap(p->aAction->action)[off #p->aAction (la x - #p->mnLookahead + i)] = ac x
inv rest: forall k. 0 <= k < #p->nActionAlloc -> (forall x. 0 <= x < j -> k <> la x - #p->mnLookahead + i) -> #heap(p->aAction->lookahead)[off #p->aAction k] = (#heap(p->aAction->lookahead) at L8)[off #p->aAction k] /\ #heap(p->aAction->action)[off #p->aAction k] = (#heap(p->aAction->action) at L8)[off #p->aAction k]
var: nl - j
