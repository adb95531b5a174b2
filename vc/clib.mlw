module CDiv
  use int.Int
  (* Euclidean division: SMT-LIB div/mod (see vc.drv) *)
  function div (x y: int) : int
  function mod (x y: int) : int
end
module CMem
  use int.Int
  use map.Map
  use ref.Ref
  use CDiv
  (* address of the i-th element; kept as a function so that quantified facts have a trigger *)
  val function off (p i: int) : int
  axiom off_def: forall p i [off p i]. off p i = p + i
  val mset (m: map int 'a) (i: int) (v: 'a) : map int 'a
    ensures { result = Map.set m i v }

  (* product of two non-constant integers: only the facts below are used (each proved for `*` in module MulFacts) *)
  val function cmul (a b: int) : int
  axiom cmul_0: forall b. cmul 0 b = 0
  axiom cmul_1: forall b. cmul 1 b = b
  axiom cmul_0r: forall b. cmul b 0 = 0
  axiom cmul_succ: forall a c b [cmul a b, cmul c b]. c = a + 1 -> cmul c b = cmul a b + b
  axiom cmul_mono: forall a c b [cmul a b, cmul c b]. b >= 0 -> a < c -> cmul a b + b <= cmul c b
  axiom cmul_pos: forall a b [cmul a b]. a >= 0 -> b >= 0 -> cmul a b >= 0
  axiom cmul_comm: forall a b [cmul a b, cmul b a]. cmul a b = cmul b a

  val abort_ () : unit ensures { false }

  (* C division and remainder (truncation), used with positive divisors only *)
  val cdiv (x y: int) : int
    ensures { x >= 0 -> y > 0 -> result = div x y }
    ensures { x < 0 -> y > 0 -> result = - (div (- x) y) }
  val cmod (x y: int) : int
    ensures { x >= 0 -> y > 0 -> result = mod x y }
    ensures { x < 0 -> y > 0 -> result = - (mod (- x) y) }
  val ediv (x y: int) : int
    ensures { result = div x y }
  val emod (x y: int) : int
    ensures { result = mod x y }
end
module MulFacts
  use int.Int
  goal cmul_0: forall b. 0 * b = 0
  goal cmul_1: forall b. 1 * b = b
  goal cmul_0r: forall b. b * 0 = 0
  goal cmul_succ: forall a c b. c = a + 1 -> c * b = a * b + b
  goal cmul_mono: forall a c b. b >= 0 -> a < c -> a * b + b <= c * b
  goal cmul_comm: forall a b. a * b = b * a
  goal cmul_pos: forall a b. a >= 0 -> b >= 0 -> a * b >= 0
end
module CBits
  use int.Int
  (* bitwise operations on plain integers other than with masks 2^k-1: uninterpreted *)
  val function band (x y: int) : int
  val function bor (x y: int) : int
  val function bxor (x y: int) : int
  val function cshl (x y: int) : int
  axiom band_range: forall x y. 0 <= y -> 0 <= band x y <= y
end
module CWord
  use int.Int
  use map.Map
  use CDiv
  use CMem
  (* 64-bit words of bit sets; the axioms are checked against SMT bit-vectors on every run (wordlemmas.py) *)
  type word
  val predicate wbit (w: word) (i: int)
  val predicate wnz (w: word)
  val function wzero : word
  val function wone (i: int) : word
  val function wor (a b: word) : word
  val function wand (a b: word) : word
  val function wnot (a: word) : word
  val function wshr (a: word) (i: int) : word
  val function wshl (a: word) (i: int) : word
  axiom wbit_zero: forall i. not (wbit wzero i)
  axiom wbit_one: forall k i. 0 <= k < 64 -> 0 <= i < 64 -> (wbit (wone k) i <-> i = k)
  axiom wbit_or: forall a b i. 0 <= i < 64 -> (wbit (wor a b) i <-> wbit a i \/ wbit b i)
  axiom wbit_and: forall a b i. 0 <= i < 64 -> (wbit (wand a b) i <-> wbit a i /\ wbit b i)
  axiom wnz_and_one: forall a k. 0 <= k < 64 -> (wnz (wand a (wone k)) <-> wbit a k)
  axiom wnz_bit: forall a i. 0 <= i < 64 -> wbit a i -> wnz a
  axiom wnz_def: forall a. wnz a -> exists i. 0 <= i < 64 /\ wbit a i
  axiom wshl_one: forall k. 0 <= k < 63 -> wshl (wone k) 1 = wone (k + 1)
  axiom wshl_one63: not (wnz (wshl (wone 63) 1))

  (* bit n of a bit-set row starting at word address r *)
  predicate rbit (m: map int word) (r n: int) = wbit (m[off r (div n 64)]) (mod n 64)
end

module CStr
  use int.Int
  use map.Map
  use CMem
  (* NUL-terminated strings *)
  predicate isstr (m: map int int) (p n: int) = n >= 0 /\ m[off p n] = 0 /\ forall i. 0 <= i < n -> m[off p i] <> 0
  val function slen (m: map int int) (p: int) : int
  val function scmp (m: map int int) (p: int) (w: map int int) (q: int) : int
  predicate streq (m: map int int) (p: int) (w: map int int) (q: int)
  axiom slen_def: forall m p n [slen m p, m[off p n]]. isstr m p n -> slen m p = n
  axiom scmp_def: forall m p w q [scmp m p w q]. scmp m p w q = 0 <-> streq m p w q
  (* equal strings: same length, same characters *)
  axiom streq_fwd: forall m p w q n i [streq m p w q, m[off p n], w[off q i]]. streq m p w q -> isstr m p n -> 0 <= i <= n -> w[off q i] = m[off p i]
  axiom streq_bwd: forall m p w q n [streq m p w q, m[off p n]]. isstr m p n -> (forall i. 0 <= i <= n -> w[off q i] = m[off p i]) -> streq m p w q
  (* at most n characters are compared *)
  val function sncmp (m: map int int) (p: int) (w: map int int) (q n: int) : int
  predicate streqn (m: map int int) (p: int) (w: map int int) (q n: int)
  axiom sncmp_def: forall m p w q n [sncmp m p w q n]. sncmp m p w q n = 0 <-> streqn m p w q n
  axiom streqn_fwd: forall m p w q n i [streqn m p w q n, w[off q i]]. streqn m p w q n -> 0 <= i < n -> (forall k. 0 <= k < i -> m[off p k] <> 0) -> w[off q i] = m[off p i]
  axiom streqn_bwd: forall m p w q n [streqn m p w q n]. (forall i. 0 <= i < n -> w[off q i] = m[off p i]) -> streqn m p w q n
  (* decimal text of an int *)
  val function dlen (v: int) : int
  val function dchr (v i: int) : int
  axiom dlen_range: forall v. 1 <= dlen v <= 11
end

module CChar
  use int.Int
  (* conversion to unsigned char and to (signed) char *)
  val function uch (c: int) : int
  val function sch (c: int) : int
  axiom uch_range: forall c [uch c]. 0 <= uch c <= 255
  axiom sch_range: forall c [sch c]. -128 <= sch c <= 127
  axiom uch_sch: forall c [uch (sch c)]. uch (sch c) = uch c
  axiom sch_uch: forall c [sch (uch c)]. sch (uch c) = sch c
  axiom uch_def: forall c [uch c]. -128 <= c <= 255 -> uch c = (if c < 0 then c + 256 else c)
  axiom sch_def: forall c [sch c]. -128 <= c <= 255 -> sch c = (if c > 127 then c - 256 else c)
end

module CType
  use int.Int
  (* <ctype.h> in the C locale, for the values an unsigned char or EOF can take and the negative char values glibc accepts *)
  val function ct_digit (c: int) : int
  axiom ct_digit_def: forall c [ct_digit c]. ct_digit c <> 0 <-> 48 <= c <= 57
  val function ct_upper (c: int) : int
  axiom ct_upper_def: forall c [ct_upper c]. ct_upper c <> 0 <-> 65 <= c <= 90
  val function ct_lower (c: int) : int
  axiom ct_lower_def: forall c [ct_lower c]. ct_lower c <> 0 <-> 97 <= c <= 122
  val function ct_alpha (c: int) : int
  axiom ct_alpha_def: forall c [ct_alpha c]. ct_alpha c <> 0 <-> 65 <= c <= 90 \/ 97 <= c <= 122
  val function ct_alnum (c: int) : int
  axiom ct_alnum_def: forall c [ct_alnum c]. ct_alnum c <> 0 <-> 48 <= c <= 57 \/ 65 <= c <= 90 \/ 97 <= c <= 122
  val function ct_xdigit (c: int) : int
  axiom ct_xdigit_def: forall c [ct_xdigit c]. ct_xdigit c <> 0 <-> 48 <= c <= 57 \/ 65 <= c <= 70 \/ 97 <= c <= 102
  val function ct_space (c: int) : int
  axiom ct_space_def: forall c [ct_space c]. ct_space c <> 0 <-> 9 <= c <= 13 \/ c = 32
  val function ct_print (c: int) : int
  axiom ct_print_def: forall c [ct_print c]. ct_print c <> 0 <-> 32 <= c <= 126
  val function ct_graph (c: int) : int
  axiom ct_graph_def: forall c [ct_graph c]. ct_graph c <> 0 <-> 33 <= c <= 126
  val function ct_blank (c: int) : int
  axiom ct_blank_def: forall c [ct_blank c]. ct_blank c <> 0 <-> c = 9 \/ c = 32
  val function ct_cntrl (c: int) : int
  axiom ct_cntrl_def: forall c [ct_cntrl c]. ct_cntrl c <> 0 <-> 0 <= c <= 31 \/ c = 127
  val function ct_punct (c: int) : int
  axiom ct_punct_def: forall c [ct_punct c]. ct_punct c <> 0 <-> 33 <= c <= 47 \/ 58 <= c <= 64 \/ 91 <= c <= 96 \/ 123 <= c <= 126
end
