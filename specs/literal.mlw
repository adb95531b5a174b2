module Literal
  use int.Int
  use int.EuclideanDivision
  use map.Map
  use clib.CMem
  (* what the spelling starting at p means: the character c; q is where it ends *)
  function hd (c: int) : int = if 48 <= c <= 57 then c - 48 else if 65 <= c <= 70 then c - 55 else if 97 <= c <= 102 then c - 87 else -1
  function hx (m: map int int) (p k: int) : int
  axiom hx_0: forall m p. hx m p 0 = 0
  axiom hx_s: forall m p k k1 [hx m p k, hx m p k1]. 0 <= k -> k1 = k + 1 -> hx m p k1 = hx m p k * 16 + hd m[off p k]
  predicate oct (c: int) = 48 <= c <= 55
  predicate dec (m: map int int) (p c q: int) =
    if m[p] <> 92 then c = m[p] /\ q = p + 1
    else let e = m[p + 1] in
      if oct e then (if not oct m[p + 2] then c = e - 48 /\ q = p + 2 else if not oct m[p + 3] then c = (e - 48) * 8 + (m[p + 2] - 48) /\ q = p + 3 else c = ((e - 48) * 8 + (m[p + 2] - 48)) * 8 + (m[p + 3] - 48) /\ q = p + 4)
      else if e = 120 then exists n. n >= 1 /\ (forall k. 0 <= k < n -> hd m[off (p + 2) k] >= 0) /\ hd m[off (p + 2) n] < 0 /\ c = hx m (p + 2) n /\ q = p + 2 + n
      else q = p + 2 /\ c = (if e = 97 then 7 else if e = 98 then 8 else if e = 102 then 12 else if e = 110 then 10 else if e = 114 then 13 else if e = 116 then 9 else if e = 118 then 11 else e)
  (* how the character c is spelled inside quotes q: number of characters, and the j-th of them *)
  predicate plain (c: int) = 32 <= c <= 126
  function letter (c: int) : int = if c = 7 then 97 else if c = 8 then 98 else if c = 12 then 102 else if c = 10 then 110 else if c = 13 then 114 else if c = 9 then 116 else if c = 11 then 118 else 0
  function elen (q c: int) : int = if c = 92 || c = q then 2 else if 32 <= c <= 126 then 1 else if letter c <> 0 then 2 else 4
  function echr (q c j: int) : int = if c = 92 || c = q then (if j = 0 then 92 else c) else if 32 <= c <= 126 then c
    else if j = 0 then 92 else if letter c <> 0 then letter c
    else if j = 1 then mod (div c 64) 8 + 48 else if j = 2 then mod (div c 8) 8 + 48 else mod c 8 + 48
  (* where the spelling of the k-th character starts *)
  function pos (g: map int int) (q k: int) : int
  axiom pos_0: forall g q. pos g q 0 = 1
  axiom pos_s: forall g q k k1 [pos g q k, pos g q k1]. 0 <= k -> k1 = k + 1 -> pos g q k1 = pos g q k + elen q g[k]
  predicate spelled (m: map int int) (p: int) (g: map int int) (q n: int) =
    forall k x. 0 <= k < n -> pos g q k <= x < pos g q k + elen q g[k] -> m[off p x] = echr q g[k] (x - pos g q k)
  let rec lemma pos_mono (g: map int int) (q k i: int)
    requires { 0 <= k < i }
    ensures { pos g q k + elen q g[k] <= pos g q i }
    variant { i }
  = assert { pos g q (i - 1 + 1) = pos g q (i - 1) + elen q g[i - 1] };
    if k < i - 1 then pos_mono g q k (i - 1)
  let rec lemma pos_pos (g: map int int) (q i: int)
    requires { 0 <= i }
    ensures { pos g q i >= 1 }
    variant { i }
  = if i > 0 then begin pos_pos g q (i - 1); assert { pos g q (i - 1 + 1) = pos g q (i - 1) + elen q g[i - 1] } end
  predicate here (m: map int int) (p s q c: int) = forall x. s <= x < s + elen q c -> m[off p x] = echr q c (x - s)
  predicate same (m m1: map int int) (p p1 n: int) = forall x. 0 <= x < n -> m1[off p1 x] = m[off p x]
  lemma spelled_step: forall m m1 p p1 g q i. 0 <= i -> spelled m p g q i -> same m m1 p p1 (pos g q i) -> here m1 p1 (pos g q i) q g[i] -> spelled m1 p1 g q (i + 1)
  (* the text of the literal with the characters g[0..n): 'x' for one character, "..." otherwise *)
  predicate canonical (m: map int int) (p: int) (g: map int int) (n: int) =
    let q = if n = 1 then 39 else 34 in
    m[off p 0] = q /\ spelled m p g q n /\ m[off p (pos g q n)] = q /\ m[off p (pos g q n + 1)] = 0
  (* two literals with the same text are the same sequence of characters *)
  predicate chars (g: map int int) (n: int) = n >= 0 /\ forall k. 0 <= k < n -> 0 <= g[k] <= 255
  predicate text_eq (m: map int int) (p p1 n: int) = forall x. 0 <= x < n -> m[off p x] = m[off p1 x]
  lemma echr_quote: forall q c. (q = 34 \/ q = 39) -> 0 <= c <= 255 -> echr q c 0 <> q
  lemma echr_inj: forall q c d. (q = 34 \/ q = 39) -> 0 <= c <= 255 -> 0 <= d <= 255 ->
    (forall j. 0 <= j < elen q c -> j < elen q d -> echr q c j = echr q d j) -> c = d
  let lemma spelled_at (m: map int int) (p: int) (g: map int int) (q n k: int)
    requires { spelled m p g q n /\ 0 <= k < n }
    ensures { forall x. pos g q k <= x < pos g q k + elen q g[k] -> m[off p x] = echr q g[k] (x - pos g q k) }
  = ()
  let lemma char_inj (m: map int int) (p p1 s q c d: int)
    requires { q = 34 \/ q = 39 }
    requires { 0 <= c <= 255 /\ 0 <= d <= 255 }
    requires { forall x. s <= x < s + elen q c -> m[off p x] = echr q c (x - s) }
    requires { forall x. s <= x < s + elen q d -> m[off p1 x] = echr q d (x - s) }
    requires { forall x. s <= x < s + elen q c -> m[off p x] = m[off p1 x] }
    ensures { c = d }
  = assert { forall x. s <= x < s + elen q c -> x < s + elen q d -> echr q c (x - s) = echr q d (x - s) };
    assert { forall j. 0 <= j < elen q c -> j < elen q d -> let x = s + j in echr q c (x - s) = echr q d (x - s) };
    assert { forall j. 0 <= j < elen q c -> j < elen q d -> echr q c j = echr q d j }
  let rec lemma prefix_inj (m: map int int) (p p1: int) (g g1: map int int) (q n n1 l k: int)
    requires { q = 34 \/ q = 39 }
    requires { chars g n /\ chars g1 n1 }
    requires { spelled m p g q n /\ spelled m p1 g1 q n1 }
    requires { m[off p (pos g q n)] = q /\ m[off p1 (pos g1 q n1)] = q }
    requires { l = pos g q n + 1 /\ text_eq m p p1 l }
    requires { 0 <= k <= n }
    ensures { k <= n1 /\ pos g q k = pos g1 q k /\ forall j. 0 <= j < k -> g[j] = g1[j] }
    variant { k }
  = if k > 0 then begin
      prefix_inj m p p1 g g1 q n n1 l (k - 1);
      pos_mono g q (k - 1) n;
      pos_pos g q (k - 1);
      spelled_at m p g q n (k - 1);
      let s = pos g q (k - 1) in
      assert { s = pos g1 q (k - 1) /\ s >= 1 /\ s + elen q g[k - 1] < l };
      assert { forall x. s <= x < s + elen q g[k - 1] -> m[off p x] = m[off p1 x] };
      assert { m[off p s] = echr q g[k - 1] 0 };
      assert { m[off p1 s] = echr q g[k - 1] 0 };
      assert { k - 1 < n1 };
      spelled_at m p1 g1 q n1 (k - 1);
      char_inj m p p1 s q g[k - 1] g1[k - 1];
      assert { g[k - 1] = g1[k - 1] };
      assert { pos g q (k - 1 + 1) = pos g q (k - 1) + elen q g[k - 1] };
      assert { pos g1 q (k - 1 + 1) = pos g1 q (k - 1) + elen q g1[k - 1] }
    end
  let lemma canonical_injective (m: map int int) (p p1: int) (g g1: map int int) (n n1: int)
    requires { chars g n /\ chars g1 n1 /\ canonical m p g n /\ canonical m p1 g1 n1 }
    requires { text_eq m p p1 (pos g (if n = 1 then 39 else 34) n + 1) }
    ensures { n = n1 /\ forall k. 0 <= k < n -> g[k] = g1[k] }
  = let q = if n = 1 then 39 else 34 in
    let q1 = if n1 = 1 then 39 else 34 in
    pos_pos g q n;
    assert { m[off p 0] = m[off p1 0] };
    assert { q = q1 };
    prefix_inj m p p1 g g1 q n n1 (pos g q n + 1) n;
    if n < n1 then begin
      assert { m[off p (pos g q n)] = m[off p1 (pos g q n)] };
      spelled_at m p1 g1 q n1 n;
      assert { m[off p1 (pos g1 q n)] = echr q g1[n] 0 };
      assert { false }
    end
end
