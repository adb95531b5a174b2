module Hits
  use int.Int
  use map.Map
  use clib.CMem
  (* the row being stored: lookaheads la 0 .. la (nl-1), all arbitrary *)
  function la int : int
  constant nl : int
  (* slot j of the table at address p answers a lookup at offset r *)
  predicate hit (m: map int int) (p r j: int)
  axiom hit_def: forall m p r j [hit m p r j]. hit m p r j <-> m[off p j] >= 0 /\ m[off p j] = j - r
  function hits (map int int) int int int : int
  axiom hits_0: forall m p r. hits m p r 0 = 0
  axiom hits_s: forall m p r n n1 [hits m p r n, hits m p r n1]. 0 <= n -> n1 = n + 1 -> hits m p r n1 = hits m p r n + (if hit m p r n then 1 else 0)
  (* x is the slot of one of the first k entries of the row at offset r *)
  predicate mem int int int
  axiom mem_0: forall r x [mem r 0 x]. not (mem r 0 x)
  axiom mem_s: forall r k k1 x [mem r k x, mem r k1 x]. 0 <= k -> k1 = k + 1 -> (mem r k1 x <-> mem r k x \/ x = r + la k)
  (* slots below n that answer but are not among the first k *)
  function out (map int int) int int int int : int
  axiom out_0: forall m p r k. out m p r k 0 = 0
  axiom out_s: forall m p r k n n1 [out m p r k n, out m p r k n1]. 0 <= n -> n1 = n + 1 -> out m p r k n1 = out m p r k n + (if hit m p r n /\ not (mem r k n) then 1 else 0)
  let rec lemma mem_of (r k x: int)
    requires { 0 <= k }
    ensures { mem r k x <-> exists j. 0 <= j < k /\ x = r + la j }
    variant { k }
  = if k > 0 then (mem_of r (k - 1) x; assert { mem r k x <-> mem r (k - 1) x \/ x = r + la (k - 1) }) else assert { not (mem r 0 x) }
  let rec lemma out_none (m: map int int) (p r n: int)
    requires { 0 <= n }
    ensures { out m p r 0 n = hits m p r n }
    variant { n }
  = if n > 0 then (out_none m p r (n - 1); assert { hits m p r n = hits m p r (n - 1) + (if hit m p r (n - 1) then 1 else 0) }; assert { not (mem r 0 (n - 1)) };
      assert { out m p r 0 n = out m p r 0 (n - 1) + (if hit m p r (n - 1) then 1 else 0) })
  let rec lemma out_step (m: map int int) (p r k n: int)
    requires { 0 <= n /\ 0 <= k < nl /\ (forall j. 0 <= j < k -> la j <> la k) /\ hit m p r (r + la k) }
    requires { 0 <= r + la k }
    ensures { out m p r (k + 1) n = out m p r k n - (if r + la k < n then 1 else 0) }
    variant { n }
  = if n > 0 then begin
      out_step m p r k (n - 1); mem_of r k (n - 1); mem_of r (k + 1) (n - 1);
      assert { mem r (k + 1) (n - 1) <-> mem r k (n - 1) \/ n - 1 = r + la k };
      assert { n - 1 = r + la k -> not (mem r k (n - 1)) };
      assert { out m p r (k + 1) n = out m p r (k + 1) (n - 1) + (if hit m p r (n - 1) /\ not (mem r (k + 1) (n - 1)) then 1 else 0) };
      assert { out m p r k n = out m p r k (n - 1) + (if hit m p r (n - 1) /\ not (mem r k (n - 1)) then 1 else 0) }
    end
  let rec lemma out_count (m: map int int) (p r k n: int)
    requires { 0 <= n /\ 0 <= k <= nl /\ (forall i j. 0 <= i < j < nl -> la i <> la j) }
    requires { forall j. 0 <= j < nl -> hit m p r (r + la j) /\ 0 <= r + la j < n }
    ensures { out m p r k n = hits m p r n - k }
    variant { k }
  = if k > 0 then (out_count m p r (k - 1) n; out_step m p r (k - 1) n) else out_none m p r n
  let rec lemma out_zero (m: map int int) (p r k n: int)
    requires { 0 <= n }
    ensures { out m p r k n >= 0 /\ (out m p r k n = 0 -> forall x. 0 <= x < n -> hit m p r x -> mem r k x) }
    variant { n }
  = if n > 0 then (out_zero m p r k (n - 1);
      assert { out m p r k n = out m p r k (n - 1) + (if hit m p r (n - 1) /\ not (mem r k (n - 1)) then 1 else 0) })
  (* as many slots answer as the row has entries: no other slot answers *)
  let lemma exact (m: map int int) (p r n: int)
    requires { 0 <= n /\ 0 <= nl /\ (forall i j. 0 <= i < j < nl -> la i <> la j) }
    requires { forall j. 0 <= j < nl -> hit m p r (r + la j) /\ 0 <= r + la j < n }
    ensures { hits m p r n = nl -> forall x. 0 <= x < n -> hit m p r x -> exists j. 0 <= j < nl /\ x = r + la j }
  = out_count m p r nl n; out_zero m p r nl n;
    assert { hits m p r n = nl -> forall x. 0 <= x < n -> hit m p r x -> mem r nl x };
    let lemma conv (x: int) ensures { mem r nl x -> exists j. 0 <= j < nl /\ x = r + la j } = mem_of r nl x in ()
end
