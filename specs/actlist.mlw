module ActList
  use int.Int
  use map.Map
  (* the action lists of the parser: node k (0 <= k < nl s) of state s, and what it holds; all uninterpreted, i.e. arbitrary *)
  function nd int int : int
  function nl int : int
  function own int : int
  function idx int : int
  predicate lists (first: int -> int) (nx: map int int) (ns: int) =
    forall s. 0 <= s < ns -> nl s >= 0 /\ first s = nd s 0 /\ nd s (nl s) = 0 /\
      (forall k. 0 <= k < nl s -> nd s k <> 0 /\ nx[nd s k] = nd s (k + 1) /\ own (nd s k) = s /\ idx (nd s k) = k)
end
module Resolve
  use int.Int
  use map.Map
  use ActList
  (* contents of node k of state s *)
  function asym int int : int
  function aprec int int : int
  function aassoc int int : int
  function acode int int : int
  constant final : int
  constant lemonprec : bool
  predicate isacc (s k: int) = s = final /\ asym s k = 0
  predicate bothprec (s q k: int) = aprec s q > 0 /\ aprec s k > 0
  (* action k is decided against the preferred action q by precedence and wins / loses / neither survives *)
  predicate wins (s q k: int) = bothprec s q k /\ (aprec s q < aprec s k \/ (acode s q = 1 /\ aprec s q = aprec s k /\ aassoc s q = 1)) /\ (acode s q = 1 \/ lemonprec)
  predicate loses (s q k: int) = bothprec s q k /\ (aprec s q > aprec s k \/ (acode s q = 1 /\ aprec s q = aprec s k /\ aassoc s q = 2)) /\ (acode s q = 1 \/ lemonprec)
  predicate neither (s q k: int) = bothprec s q k /\ acode s q = 1 /\ aprec s q = aprec s k /\ aassoc s q <> 1 /\ aassoc s q <> 2
  (* index of the preferred action for the current symbol once the first k actions are processed, -1 if none *)
  function prf int int : int
  axiom prf_0: forall s. prf s 0 = -1
  predicate fresh (s k: int) = not (isacc s k) /\ (prf s k < 0 \/ asym s (prf s k) <> asym s k)
  predicate contest (s k: int) = not (isacc s k) /\ not (fresh s k)
  axiom prf_s: forall s k k1 [prf s k, prf s k1]. 0 <= k -> k1 = k + 1 ->
    prf s k1 = if isacc s k then prf s k else if fresh s k then k else if wins s (prf s k) k then k else prf s k
  (* conflicts that precedence does not decide *)
  predicate sr (s k: int) = isacc s k \/ (contest s k /\ acode s (prf s k) = 1 /\ not (bothprec s (prf s k) k))
  predicate rr (s k: int) = contest s k /\ acode s (prf s k) <> 1 /\ not (wins s (prf s k) k) /\ not (loses s (prf s k) k)
  function nsr int int : int
  axiom nsr_0: forall s. nsr s 0 = 0
  axiom nsr_s: forall s k k1 [nsr s k, nsr s k1]. 0 <= k -> k1 = k + 1 -> nsr s k1 = nsr s k + (if sr s k then 1 else 0)
  function nrr int int : int
  axiom nrr_0: forall s. nrr s 0 = 0
  axiom nrr_s: forall s k k1 [nrr s k, nrr s k1]. 0 <= k -> k1 = k + 1 -> nrr s k1 = nrr s k + (if rr s k then 1 else 0)
  function tsr int : int
  axiom tsr_0: tsr 0 = 0
  axiom tsr_s: forall s s1 [tsr s, tsr s1]. 0 <= s -> s1 = s + 1 -> tsr s1 = tsr s + nsr s (nl s)
  function trr int : int
  axiom trr_0: trr 0 = 0
  axiom trr_s: forall s s1 [trr s, trr s1]. 0 <= s -> s1 = s + 1 -> trr s1 = trr s + nrr s (nl s)
  (* action j is displaced by action k *)
  predicate kill (s j k: int) = contest s k /\ prf s k = j /\ (wins s j k \/ neither s j k)
  (* ... one of the actions before n; by recursion on n *)
  predicate killed (s j n: int)
  axiom killed_0: forall s j n [killed s j n]. n = j + 1 -> not (killed s j n)
  axiom killed_s: forall s j n n1 [killed s j n, killed s j n1]. n1 = n + 1 -> j < n -> (killed s j n1 <-> killed s j n \/ kill s j n)
  (* 0 active, 1 dropped in an undecided conflict, 2 dropped by precedence; value of action j once n actions are processed *)
  predicate supp (s j n v: int) =
    (killed s j n -> v = 2) /\
    (not (killed s j n) -> v = (if sr s j || rr s j then 1 else if contest s j && not (wins s (prf s j) j) then 2 else 0))
end
