module Rows
  use int.Int
  use actlist.ActList
  (* act 1 s k: node k of state s is a surviving shift; act 2 s k: a surviving reduction other than by the default rule; all arbitrary *)
  predicate act int int int
  function tsym int int : int
  function tnum int int : int
  (* what the first k nodes put in the row of state s at token x, 0 for nothing *)
  function row int int int int : int
  axiom row_0: forall c s x. row c s 0 x = 0
  axiom row_s: forall c s k k1 x [row c s k x, row c s k1 x]. 0 <= k -> k1 = k + 1 -> row c s k1 x = if act c s k /\ tsym s k = x then tnum s k else row c s k x
  (* number of tokens before x the row has an entry for *)
  function rk int int int int : int
  axiom rk_0: forall c s k. rk c s k 0 = 0
  axiom rk_s: forall c s k x x1 [rk c s k x, rk c s k x1]. 0 <= x -> x1 = x + 1 -> rk c s k x1 = rk c s k x + (if row c s k x <> 0 then 1 else 0)
  (* number of such nodes among the first k *)
  function cn int int int : int
  axiom cn_0: forall c s. cn c s 0 = 0
  axiom cn_s: forall c s k k1 [cn c s k, cn c s k1]. 0 <= k -> k1 = k + 1 -> cn c s k1 = cn c s k + (if act c s k then 1 else 0)
  predicate wf (c s n: int) = nl s >= 0 /\ n >= 0 /\ (forall k. 0 <= k < nl s -> act c s k -> 0 <= tsym s k < n /\ tnum s k > 0) /\
    (forall j k. 0 <= j < k < nl s -> act c s j -> act c s k -> tsym s j <> tsym s k)
  let rec lemma row_none (c s k x: int)
    requires { 0 <= k }
    ensures { (forall j. 0 <= j < k -> act c s j -> tsym s j <> x) -> row c s k x = 0 }
    variant { k }
  = if k > 0 then (row_none c s (k - 1) x; assert { row c s k x = (if act c s (k-1) /\ tsym s (k-1) = x then tnum s (k-1) else row c s (k-1) x) })
  let rec lemma rk_none (c s x: int)
    requires { 0 <= x }
    ensures { rk c s 0 x = 0 }
    variant { x }
  = if x > 0 then (rk_none c s (x - 1); assert { rk c s 0 x = rk c s 0 (x-1) })
  let rec lemma rk_step (c s k x n: int)
    requires { wf c s n /\ 0 <= k < nl s /\ 0 <= x <= n }
    ensures { rk c s (k + 1) x = rk c s k x + (if act c s k /\ tsym s k < x then 1 else 0) }
    variant { x }
  = if x > 0 then begin
      rk_step c s k (x - 1) n;
      row_none c s k (tsym s k);
      assert { row c s (k + 1) (x - 1) = if act c s k /\ tsym s k = x - 1 then tnum s k else row c s k (x - 1) };
      assert { rk c s k x = rk c s k (x - 1) + (if row c s k (x - 1) <> 0 then 1 else 0) };
      assert { rk c s (k + 1) x = rk c s (k + 1) (x - 1) + (if row c s (k + 1) (x - 1) <> 0 then 1 else 0) }
    end
  let rec lemma rk_count (c s k n: int)
    requires { wf c s n /\ 0 <= k <= nl s }
    ensures { rk c s k n = cn c s k }
    variant { k }
  = if k = 0 then rk_none c s n else begin
      rk_count c s (k - 1) n; rk_step c s (k - 1) n n;
      assert { cn c s k = cn c s (k - 1) + (if act c s (k - 1) then 1 else 0) }
    end
  let rec lemma rk_mono (c s k x y: int)
    requires { 0 <= x <= y }
    ensures { 0 <= rk c s k x <= rk c s k y }
    variant { y }
  = if x < y then (rk_mono c s k x (y - 1); assert { rk c s k y >= rk c s k (y-1) }) else if x > 0 then (rk_mono c s k (x-1) (x-1); assert { rk c s k x >= rk c s k (x - 1) })
  let lemma rk_lt (c s k x y: int)
    requires { 0 <= x < y }
    ensures { row c s k x <> 0 -> 0 <= rk c s k x < rk c s k y }
  = rk_mono c s k x x; rk_mono c s k (x + 1) y; assert { rk c s k (x + 1) = rk c s k x + (if row c s k x <> 0 then 1 else 0) }
end
