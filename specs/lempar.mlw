(* tables of a generated parser: row s of the action table is la/ac from of[s] on; an entry counts only where la holds its own symbol *)
module Lempar
  use int.Int
  use map.Map
  use clib.CMem
  (* entry for symbol t of the row at o, if there is one *)
  predicate hit (la: map int int) (pla o t: int) = la[off pla (o + t)] = t
  (* the action for a token: its own, else the wildcard's (never for the end of input), else the default *)
  function act1 (la ac: map int int) (pla pac o wild t dflt: int) : int =
    if hit la pla o t then ac[off pac (o + t)] else if hit la pla o wild /\ t > 0 then ac[off pac (o + wild)] else dflt
  (* the same, after its fallback f if it has no action of its own *)
  function act (la ac: map int int) (pla pac o wild t f dflt: int) : int =
    if hit la pla o t then ac[off pac (o + t)] else if f <> 0 then act1 la ac pla pac o wild f dflt else act1 la ac pla pac o wild t dflt
  (* without wildcard and fallback *)
  function act0 (la ac: map int int) (pla pac o t dflt: int) : int = if hit la pla o t then ac[off pac (o + t)] else dflt
  (* each row lies in the tables; entries for tokens are below na *)
  predicate rows (sh la: map int int) (pso pla states ntok nla na: int) =
    (forall s. 0 <= s <= states -> 0 <= sh[off pso s] <= na /\ sh[off pso s] + ntok <= nla) /\
    (forall k. na <= k < nla -> la[off pla k] >= ntok)
  predicate fallbacks (fb: map int int) (pfb ntok nocode: int) =
    forall t. 0 <= t < ntok -> 0 <= fb[off pfb t] < ntok /\ fb[off pfb t] <> nocode /\ fb[off pfb (fb[off pfb t])] = 0
  (* the goto for a nonterminal; rows may start before the table *)
  function goto_ (la ac: map int int) (pla pac o n na dflt: int) : int = if 0 <= o + n < na /\ hit la pla o n then ac[off pac (o + n)] else dflt
  (* the action in state s for token t; a state above mx stands for a reduction that is due *)
  function pact (la ac sh df: map int int) (pla pac psh pdf mx s t: int) : int = if s > mx then s else act0 la ac pla pac sh[off psh s] t df[off pdf s]
  (* states on the stack, one to an address; p is the top *)
  type stack = map int int
  (* reducing by a rule with k symbols and left side n replaces k states by the goto of the one below *)
  function top2 (p k: int) : int = p - k + 1
end
