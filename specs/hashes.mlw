module StrHash
  use int.Int
  use map.Map
  use clib.CMem
  use clib.CStr
  (* the hash of a string: a function of its characters *)
  function hs (m: map int int) (p k: int) : int
  axiom hs_0: forall m p. hs m p 0 = 0
  axiom hs_s: forall m p k k1 [hs m p k, hs m p k1]. 0 <= k -> k1 = k + 1 -> hs m p k1 = hs m p k * 13 + m[off p k]
  function shash (m: map int int) (p: int) : int
  axiom shash_def: forall m p n [isstr m p n, shash m p]. isstr m p n -> shash m p = hs m p n
  let rec lemma hs_eq (m w: map int int) (p q n: int)
    requires { 0 <= n /\ forall i. 0 <= i < n -> w[off q i] = m[off p i] }
    ensures { hs w q n = hs m p n }
    variant { n }
  = if n > 0 then (hs_eq m w p q (n - 1); assert { m[off p (n - 1)] = w[off q (n - 1)] })
  let lemma shash_eq (m w: map int int) (p q n: int)
    requires { isstr m p n /\ streq m p w q }
    ensures { isstr w q n /\ shash w q = shash m p }
  = assert { forall i. 0 <= i <= n -> w[off q i] = m[off p i] }; hs_eq m w p q n
end

module KSeq
  use int.Int
  use map.Map
  (* the kernel of a state: the configurations reached through bp *)
  function kn (bp: map int int) (p k: int) : int
  axiom kn_0: forall bp p. kn bp p 0 = p
  axiom kn_s: forall bp p k k1 [kn bp p k, kn bp p k1]. 0 <= k -> k1 = k + 1 -> kn bp p k1 = bp[kn bp p k]
  predicate isk (bp: map int int) (p n: int) = n >= 0 /\ kn bp p n = 0 /\ forall i. 0 <= i < n -> kn bp p i <> 0
  function klen (bp: map int int) (p: int) : int
  axiom klen_def: forall bp p n [klen bp p, kn bp p n]. isk bp p n -> klen bp p = n
  (* equal kernels: the same rules and positions in the same order *)
  predicate keq (b1 r1 x1 d1: map int int) (p: int) (b2 r2 x2 d2: map int int) (q: int) =
    klen b1 p = klen b2 q /\ forall k. 0 <= k < klen b1 p -> x1[r1[kn b1 p k]] = x2[r2[kn b2 q k]] /\ d1[kn b1 p k] = d2[kn b2 q k]
  function kh (bp rp ix dt: map int int) (p k: int) : int
  axiom kh_0: forall bp rp ix dt p. kh bp rp ix dt p 0 = 0
  axiom kh_s: forall bp rp ix dt p k k1 [kh bp rp ix dt p k, kh bp rp ix dt p k1]. 0 <= k -> k1 = k + 1 ->
    kh bp rp ix dt p k1 = kh bp rp ix dt p k * 571 + ix[rp[kn bp p k]] * 37 + dt[kn bp p k]
  function khash (bp rp ix dt: map int int) (p: int) : int
  axiom khash_def: forall bp rp ix dt p [khash bp rp ix dt p]. khash bp rp ix dt p = kh bp rp ix dt p (klen bp p)
  let rec lemma kh_eq (b1 r1 x1 d1: map int int) (p: int) (b2 r2 x2 d2: map int int) (q n: int)
    requires { 0 <= n /\ forall k. 0 <= k < n -> x1[r1[kn b1 p k]] = x2[r2[kn b2 q k]] /\ d1[kn b1 p k] = d2[kn b2 q k] }
    ensures { kh b1 r1 x1 d1 p n = kh b2 r2 x2 d2 q n }
    variant { n }
  = if n > 0 then kh_eq b1 r1 x1 d1 p b2 r2 x2 d2 q (n - 1)
  let lemma khash_eq (b1 r1 x1 d1: map int int) (p: int) (b2 r2 x2 d2: map int int) (q: int)
    requires { keq b1 r1 x1 d1 p b2 r2 x2 d2 q /\ klen b1 p >= 0 }
    ensures { khash b1 r1 x1 d1 p = khash b2 r2 x2 d2 q }
  = kh_eq b1 r1 x1 d1 p b2 r2 x2 d2 q (klen b1 p)
end
