module Rel
  use int.Int
  use map.Map
  use ref.Ref
  use clib.CMem
  use edges.Edges
  (* goto i = (state p, symbol A): dl i rules have left side A, ru i k is the k-th; rn r: length of the right side of rule r, x r l its l-th symbol *)
  val function dl int : int
  val function ru (i k: int) : int
  function rn int : int
  function x_ int int : int
  (* state reached from p after the first l symbols of rule ru i k *)
  function pt (i k l: int) : int
  (* index of the goto transition from state s on symbol y; index of the reduction by rule r in state s *)
  function go (s y: int) : int
  val function la (s r: int) : int
  (* number of trailing positions of rule r whose follow set includes that of the left side *)
  function nt int : int
  function pn (i k: int) : int
  axiom pn_0: forall i. pn i 0 = 0
  axiom pn_s: forall i k k1 [pn i k, pn i k1]. 0 <= k -> k1 = k + 1 -> pn i k1 = pn i k + nt (ru i k)
  let rec ghost pn_mono (i k k2: int) : unit
    requires { 0 <= k <= k2 <= dl i /\ forall m. 0 <= m < dl i -> nt (ru i m) >= 0 }
    ensures { 0 <= pn i k <= pn i k2 }
    variant { k2 }
  = if k < k2 then begin pn_mono i k (k2 - 1); assert { pn i (k2 - 1 + 1) = pn i (k2 - 1) + nt (ru i (k2 - 1)) } end
    else if k > 0 then begin pn_mono i 0 (k - 1); assert { pn i (k - 1 + 1) = pn i (k - 1) + nt (ru i (k - 1)) } end
  (* the lookback lists built so far: glen a nodes for reduction a, gnode a k the k-th added *)
  val ref glen : map int int
  val ref gnode : map int (map int int)
  (* for goto v and its k-th rule: index of its node in the list; for node m of list a: the goto and rule it was added for *)
  val ref gat : map int (map int int)
  val ref gsv : map int (map int int)
  val ref gsk : map int (map int int)
  predicate chain (head: map int int) (ph: int) (next: map int int) (gl: map int int) (gn: map int (map int int)) (brk: int) =
    forall a. gl[a] >= 0 /\ head[off ph a] = (if gl[a] = 0 then 0 else gn[a][gl[a] - 1]) /\
      forall k. 0 <= k < gl[a] -> 0 < gn[a][k] < brk /\ next[gn[a][k]] = (if k = 0 then 0 else gn[a][k - 1])
end
