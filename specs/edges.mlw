module Edges
  use int.Int
  (* a relation listed source by source: source i has ln i edges, numbered st i, st i + 1, ...; edge t goes from sr t to tg t *)
  function ln int : int
  val function st (k: int) : int
  function sr int : int
  function tg int : int
  axiom st_0: st 0 = 0
  axiom st_s: forall k k1 [st k, st k1]. 0 <= k -> k1 = k + 1 -> st k1 = st k + ln k
  (* number of edges to j among the first t *)
  val function cn (t j: int) : int
  axiom cn_0: forall j. cn 0 j = 0
  axiom cn_s: forall t t1 j [cn t j, cn t1 j]. 0 <= t -> t1 = t + 1 -> cn t1 j = cn t j + (if tg t = j then 1 else 0)
  let rec ghost cn_mono (u t j: int) : unit
    requires { 0 <= u <= t }
    ensures { 0 <= cn u j <= cn t j }
    variant { t }
  = if u < t then begin cn_mono u (t - 1) j; assert { cn (t - 1 + 1) j = cn (t - 1) j + (if tg (t - 1) = j then 1 else 0) } end
    else if u > 0 then begin cn_mono 0 (u - 1) j; assert { cn (u - 1 + 1) j = cn (u - 1) j + (if tg (u - 1) = j then 1 else 0) } end
  let lemma cn_pos (t j: int)
    requires { 0 <= t }
    ensures { 0 <= cn t j }
  = cn_mono 0 t j
  let rec ghost st_mono (a b: int) : unit
    requires { 0 <= a <= b /\ forall i. 0 <= i < b -> ln i >= 0 }
    ensures { 0 <= st a <= st b }
    variant { b }
  = if a < b then begin st_mono a (b - 1); assert { st (b - 1 + 1) = st (b - 1) + ln (b - 1) } end
    else if a > 0 then begin st_mono 0 (a - 1); assert { st (a - 1 + 1) = st (a - 1) + ln (a - 1) } end
  let ghost edges_in (n: int) : unit
    requires { 0 <= n /\ forall i. 0 <= i < n -> ln i >= 0 }
    ensures { forall i k. 0 <= i < n -> 0 <= k < ln i -> 0 <= st i + k < st n }
    ensures { forall i u. 0 <= i < n -> st i <= u < st i + ln i -> 0 <= u < st n }
  = let lemma f (i: int) requires { 0 <= i < n } ensures { 0 <= st i /\ st (i + 1) = st i + ln i /\ st (i + 1) <= st n } = st_mono 0 i; st_mono (i + 1) n in ()
  let ghost cn_lt (u t j: int) : unit
    requires { 0 <= u < t /\ tg u = j }
    ensures { cn u j < cn t j }
  = assert { cn (u + 1) j = cn u j + 1 }; cn_mono (u + 1) t j
  let rec ghost slot (t j p: int) : unit
    requires { 0 <= t /\ 0 <= p < cn t j }
    ensures { exists u. 0 <= u < t /\ tg u = j /\ cn u j = p }
    variant { t }
  = if t > 0 then begin
      assert { cn (t - 1 + 1) j = cn (t - 1) j + (if tg (t - 1) = j then 1 else 0) };
      if p < cn (t - 1) j then slot (t - 1) j p
    end
  let rec ghost edge_of (n u: int) : unit
    requires { 0 <= n /\ (forall i. 0 <= i < n -> ln i >= 0) /\ 0 <= u < st n }
    ensures { exists i k. 0 <= i < n /\ 0 <= k < ln i /\ u = st i + k }
    variant { n }
  = if n > 0 then begin
      assert { st (n - 1 + 1) = st (n - 1) + ln (n - 1) };
      if u < st (n - 1) then edge_of (n - 1) u
      else assert { u = st (n - 1) + (u - st (n - 1)) }
    end
  let ghost cn_in (n: int) : unit
    requires { 0 <= n }
    ensures { forall u. 0 <= u < n -> 0 <= cn u (tg u) < cn n (tg u) }
  = let lemma f (u: int) requires { 0 <= u < n } ensures { 0 <= cn u (tg u) < cn n (tg u) } = cn_lt u n (tg u); cn_mono 0 u (tg u) in ()
  predicate isslot (t j p: int)
  axiom isslot_def: forall t j p [isslot t j p]. isslot t j p <-> exists u. 0 <= u < t /\ tg u = j /\ cn u j = p
  predicate isedge (n u: int)
  axiom isedge_def: forall n u [isedge n u]. isedge n u <-> exists i k. 0 <= i < n /\ 0 <= k < ln i /\ u = st i + k
  let lemma isslot_ (t j p: int)
    requires { 0 <= t /\ 0 <= p < cn t j }
    ensures { isslot t j p }
  = slot t j p
  let lemma isedge_ (n u: int)
    requires { 0 <= n /\ (forall i. 0 <= i < n -> ln i >= 0) /\ 0 <= u < st n }
    ensures { isedge n u }
  = edge_of n u
  (* number of edges, among the first t, to a, a + 1, ..., s - 1 *)
  val function gs (t a s: int) : int
  axiom gs_0: forall t a. gs t a a = 0
  axiom gs_s: forall t a s s1 [gs t a s, gs t a s1]. a <= s -> s1 = s + 1 -> gs t a s1 = gs t a s + cn t s
  let rec ghost gs_step (t a s: int) : unit
    requires { 0 <= t /\ a <= s }
    ensures { gs (t + 1) a s = gs t a s + (if a <= tg t < s then 1 else 0) }
    variant { s - a }
  = if s > a then begin
      gs_step t a (s - 1);
      assert { gs (t + 1) a (s - 1 + 1) = gs (t + 1) a (s - 1) + cn (t + 1) (s - 1) };
      assert { gs t a (s - 1 + 1) = gs t a (s - 1) + cn t (s - 1) }
    end
  let rec ghost gs_zero (a s: int) : unit
    requires { a <= s }
    ensures { gs 0 a s = 0 }
    variant { s - a }
  = if s > a then begin gs_zero a (s - 1); assert { gs 0 a (s - 1 + 1) = gs 0 a (s - 1) + cn 0 (s - 1) } end
  let rec ghost gs_total (t a b: int) : unit
    requires { 0 <= t /\ a <= b /\ forall u. 0 <= u < t -> a <= tg u < b }
    ensures { gs t a b = t }
    variant { t }
  = if t > 0 then begin gs_total (t - 1) a b; gs_step (t - 1) a b end else gs_zero a b
  let rec ghost gs_mono (t a s r: int) : unit
    requires { 0 <= t /\ a <= s <= r }
    ensures { 0 <= gs t a s <= gs t a r }
    variant { r - a }
  = if s < r then begin gs_mono t a s (r - 1); assert { gs t a (r - 1 + 1) = gs t a (r - 1) + cn t (r - 1) } end
    else if a < s then begin gs_mono t a a (s - 1); assert { gs t a (s - 1 + 1) = gs t a (s - 1) + cn t (s - 1) } end
  let ghost gs_all (t a b: int) : unit
    requires { 0 <= t /\ a <= b }
    ensures { forall s r [gs t a s, gs t a r]. a <= s < r <= b -> 0 <= gs t a s /\ gs t a s + cn t s <= gs t a r }
    ensures { 0 <= gs t a b }
  = let lemma f (s r: int) requires { a <= s < r <= b } ensures { 0 <= gs t a s /\ gs t a s + cn t s <= gs t a r } = gs_mono t a (s + 1) r; gs_mono t a s s; assert { gs t a (s + 1) = gs t a s + cn t s } in gs_mono t a a b
end
