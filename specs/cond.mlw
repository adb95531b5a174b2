(* the language of %if conditions: NAME, !x, (x), x && x, x || x with && binding tighter; blanks between *)
module Cond
  use int.Int
  use map.Map
  use clib.CDiv
  use clib.CMem
  use clib.CChar
  use clib.CStr
  use bool.Bool
  predicate spc (c: int) = 9 <= c <= 13 \/ c = 32
  predicate alp (c: int) = 65 <= c <= 90 \/ 97 <= c <= 122
  predicate wrd (c: int) = alp c \/ 48 <= c <= 57 \/ c = 95
  (* a term; a condition from one of its terms on. Numbers are positions: ends of names, closing parentheses, ends of terms, operators *)
  type term = Name int | Sp term | Bang term | Par int tail
  with tail = One term int | Or term int int tail | And term int int tail
  predicate sterm (m: map int int) (i j: int) (t: term) = match t with
    | Name e -> j = e /\ i < j /\ alp m[i] /\ (forall k. i < k < j -> wrd m[k])
    | Sp t -> spc m[i] /\ sterm m (i + 1) j t
    | Bang t -> m[i] = 33 /\ sterm m (i + 1) j t
    | Par c l -> j = c + 1 /\ m[i] = 40 /\ stail m (i + 1) c l /\ m[c] = 41
    end
  with stail (m: map int int) (i e: int) (l: tail) = match l with
    | One t p -> sterm m i p t /\ p <= e /\ (forall k. p <= k < e -> spc m[k])
    | Or t p q r -> sterm m i p t /\ p <= q /\ (forall k. p <= k < q -> spc m[k]) /\ m[q] = 124 /\ m[q + 1] = 124 /\ stail m (q + 2) e r
    | And t p q r -> sterm m i p t /\ p <= q /\ (forall k. p <= k < q -> spc m[k]) /\ m[q] = 38 /\ m[q + 1] = 38 /\ stail m (q + 2) e r
    end
  (* D a b: the characters from a up to b are a defined name *)
  function vterm (d: int -> int -> bool) (i: int) (t: term) : bool = match t with
    | Name e -> d i e
    | Sp t -> vterm d (i + 1) t
    | Bang t -> notb (vterm d (i + 1) t)
    | Par _ l -> vtail d (i + 1) false true l
    end
  with vtail (d: int -> int -> bool) (i: int) (neg acc: bool) (l: tail) : bool = match l with
    | One t _ -> andb acc (xorb neg (vterm d i t))
    | Or t _ q r -> orb (andb acc (xorb neg (vterm d i t))) (vtail d (q + 2) false true r)
    | And t _ q r -> vtail d (q + 2) false (andb acc (xorb neg (vterm d i t))) r
    end
  (* nesting of parentheses *)
  function par (c: int) : int = if c = 40 then 1 else if c = 41 then -1 else 0
  val function dp (m: map int int) (a b: int) : int
  axiom dp_0: forall m a. dp m a a = 0
  axiom dp_s: forall m a b c [dp m a b, dp m a c]. a <= b -> c = b + 1 -> dp m a c = dp m a b + par m[b]
  let rec lemma dp_add (m: map int int) (a b c: int) requires { a <= b <= c } variant { c - b } ensures { dp m a c = dp m a b + dp m b c }
  = if b < c then begin dp_add m a b (c - 1); assert { dp m b c = dp m b (c - 1) + par m[c - 1] }; assert { dp m a c = dp m a (c - 1) + par m[c - 1] } end
  predicate flat (m: map int int) (i j: int) = i <= j /\ dp m i j = 0 /\ forall k. i <= k <= j -> dp m i k >= 0
  (* no | outside parentheses *)
  predicate nopipe (m: map int int) (i j: int) = forall k. i <= k < j -> dp m i k = 0 -> m[k] <> 124
  let ghost flat_app (m: map int int) (i j k: int) : unit requires { flat m i j /\ flat m j k } ensures { flat m i k } ensures { nopipe m i j -> nopipe m j k -> nopipe m i k }
  = dp_add m i j k; assert { forall x. j <= x <= k -> dp m i x = dp m j x by dp m i x = dp m i j + dp m j x }
  let rec ghost flat_plain (m: map int int) (i j: int) : unit requires { i <= j /\ forall k. i <= k < j -> m[k] <> 40 /\ m[k] <> 41 } variant { j - i } ensures { flat m i j /\ forall k. i <= k <= j -> dp m i k = 0 }
  = if i < j then begin flat_plain m i (j - 1); assert { dp m i j = dp m i (j - 1) + par m[j - 1] } end
  let rec ghost bal_term (m: map int int) (i j: int) (t: term) : unit requires { sterm m i j t } variant { t } ensures { i < j /\ flat m i j /\ nopipe m i j }
  = match t with
    | Name _ -> flat_plain m i j
    | Sp u -> bal_term m (i + 1) j u; flat_plain m i (i + 1); flat_app m i (i + 1) j
    | Bang u -> bal_term m (i + 1) j u; flat_plain m i (i + 1); flat_app m i (i + 1) j
    | Par c l -> bal_tail m (i + 1) c l; assert { dp m i (i + 1) = 1 };
        assert { forall k. i + 1 <= k <= c -> dp m i k = 1 + dp m (i + 1) k by dp m i k = dp m i (i + 1) + dp m (i + 1) k };
        assert { dp m i j = dp m i c + par m[c] }; assert { dp m i c = 1 }
    end
  with ghost bal_tail (m: map int int) (i e: int) (l: tail) : unit requires { stail m i e l } variant { l } ensures { i < e /\ flat m i e }
  = match l with
    | One t p -> bal_term m i p t; flat_plain m p e; flat_app m i p e
    | Or t p q r -> bal_term m i p t; flat_plain m p q; flat_app m i p q; flat_plain m q (q + 2); flat_app m i q (q + 2); bal_tail m (q + 2) e r; flat_app m i (q + 2) e
    | And t p q r -> bal_term m i p t; flat_plain m p q; flat_app m i p q; flat_plain m q (q + 2); flat_app m i q (q + 2); bal_tail m (q + 2) e r; flat_app m i (q + 2) e
    end
  (* the closing parenthesis is the first place with no open one left *)
  let ghost closing (m: map int int) (i c: int) (l: tail) : unit requires { stail m i c l /\ m[c] = 41 }
    ensures { i < c /\ dp m i c = 0 /\ forall k. i <= k < c -> dp m i k >= 0 /\ (m[k] = 41 -> dp m i k > 0) }
  = bal_tail m i c l; assert { forall k. i <= k < c -> dp m i (k + 1) = dp m i k + par m[k] }
  (* a condition is read in one way only *)
  let rec ghost uni_term (m: map int int) (i j k: int) (t u: term) : unit requires { sterm m i j t /\ sterm m i k u /\ not (wrd m[j]) /\ not (wrd m[k]) } variant { t } ensures { j = k /\ t = u }
  = match t, u with
    | Name _, Name _ -> ()
    | Sp t, Sp u -> uni_term m (i + 1) j k t u
    | Bang t, Bang u -> uni_term m (i + 1) j k t u
    | Par c l, Par d n -> closing m (i + 1) c l; closing m (i + 1) d n; assert { c = d }; uni_tail m (i + 1) c l n
    | _ -> ()
    end
  with ghost uni_tail (m: map int int) (i e: int) (l n: tail) : unit requires { stail m i e l /\ stail m i e n /\ not (wrd m[e]) } variant { l } ensures { l = n }
  = match l, n with
    | One t p, One u q -> uni_term m i p q t u
    | One t p, Or u q a r -> bal_tail m (a + 2) e r; uni_term m i p q t u
    | One t p, And u q a r -> bal_tail m (a + 2) e r; uni_term m i p q t u
    | Or t p a r, One u q -> bal_tail m (a + 2) e r; uni_term m i p q t u
    | And t p a r, One u q -> bal_tail m (a + 2) e r; uni_term m i p q t u
    | Or t p a r, Or u q b s -> uni_term m i p q t u; assert { a = b }; uni_tail m (a + 2) e r s
    | And t p a r, And u q b s -> uni_term m i p q t u; assert { a = b }; uni_tail m (a + 2) e r s
    | Or t p a _, And u q b _ -> uni_term m i p q t u; assert { a = b }
    | And t p a _, Or u q b _ -> uni_term m i p q t u; assert { a = b }
    end
  (* only the characters of the condition matter *)
  let rec ghost frame_term (m w: map int int) (d g: int -> int -> bool) (i j: int) (t: term) : unit requires { sterm m i j t /\ (forall k. i <= k < j -> w[k] = m[k]) /\ (forall a b. i <= a <= b <= j -> d a b = g a b) } variant { t } ensures { sterm w i j t /\ vterm d i t = vterm g i t }
  = bal_term m i j t; match t with
    | Name _ -> ()
    | Sp u -> frame_term m w d g (i + 1) j u
    | Bang u -> frame_term m w d g (i + 1) j u
    | Par c l -> bal_tail m (i + 1) c l; frame_tail m w d g (i + 1) c false true l
    end
  with ghost frame_tail (m w: map int int) (d g: int -> int -> bool) (i e: int) (neg acc: bool) (l: tail) : unit requires { stail m i e l /\ (forall k. i <= k < e -> w[k] = m[k]) /\ (forall a b. i <= a <= b <= e -> d a b = g a b) } variant { l } ensures { stail w i e l /\ vtail d i neg acc l = vtail g i neg acc l }
  = bal_tail m i e l; match l with
    | One t p -> bal_term m i p t; frame_term m w d g i p t
    | Or t p q r -> bal_term m i p t; bal_tail m (q + 2) e r; frame_term m w d g i p t; frame_tail m w d g (q + 2) e false true r
    | And t p q r -> bal_term m i p t; bal_tail m (q + 2) e r; frame_term m w d g i p t; frame_tail m w d g (q + 2) e false (andb acc (xorb neg (vterm d i t))) r
    end
  (* the first || outside parentheses *)
  function fo (l: tail) : int = match l with One _ _ -> -1 | Or _ _ q _ -> q | And _ _ _ r -> fo r end
  function fr (l: tail) : tail = match l with One _ _ -> l | Or _ _ _ r -> r | And _ _ _ r -> fr r end
  let rec ghost skip_tail (m: map int int) (d: int -> int -> bool) (i e: int) (neg: bool) (l: tail) : unit requires { stail m i e l /\ i > 0 } variant { l }
    ensures { fo l = -1 -> vtail d i neg false l = false /\ forall k. i <= k < e -> dp m i k = 0 -> m[k] <> 124 }
    ensures { fo l <> -1 -> i <= fo l /\ fo l < e /\ dp m i (fo l) = 0 /\ m[fo l] = 124 /\ m[fo l + 1] = 124 }
    ensures { fo l <> -1 -> stail m (fo l + 2) e (fr l) /\ vtail d i neg false l = vtail d (fo l + 2) false true (fr l) }
    ensures { fo l <> -1 -> forall k. i <= k < fo l -> dp m i k = 0 -> m[k] <> 124 }
  = bal_tail m i e l; match l with
    | One t p -> bal_term m i p t; flat_plain m p e; flat_app m i p e
    | Or t p q r -> bal_term m i p t; flat_plain m p q; flat_app m i p q; bal_tail m (q + 2) e r; assert { fo l = q /\ fr l = r /\ stail m (q + 2) e r /\ nopipe m i q /\ vtail d i neg false l = vtail d (q + 2) false true r }
    | And t p q r -> bal_term m i p t; flat_plain m p q; flat_app m i p q; flat_plain m q (q + 2); flat_app m i q (q + 2); bal_tail m (q + 2) e r;
        skip_tail m d (q + 2) e false r;
        assert { forall x. q + 2 <= x <= e -> dp m i x = dp m (q + 2) x by dp m i x = dp m i (q + 2) + dp m (q + 2) x }
    end
  (* what is left after a term, and its value given that of the conjunction so far *)
  predicate srest (m: map int int) (p e: int) (l: tail) = match l with
    | One _ _ -> p <= e /\ (forall k. p <= k < e -> spc m[k])
    | Or _ _ q r -> p <= q /\ (forall k. p <= k < q -> spc m[k]) /\ m[q] = 124 /\ m[q + 1] = 124 /\ stail m (q + 2) e r
    | And _ _ q r -> p <= q /\ (forall k. p <= k < q -> spc m[k]) /\ m[q] = 38 /\ m[q + 1] = 38 /\ stail m (q + 2) e r
    end
  function vrest (d: int -> int -> bool) (b: bool) (l: tail) : bool = match l with
    | One _ _ -> b | Or _ _ q r -> orb b (vtail d (q + 2) false true r) | And _ _ q r -> vtail d (q + 2) false b r end
  val function hd (l: tail) : term ensures { result = match l with One t _ -> t | Or t _ _ _ -> t | And t _ _ _ -> t end }
  val function sethd (t: term) (l: tail) : tail ensures { result = match l with One _ p -> One t p | Or _ p q r -> Or t p q r | And _ p q r -> And t p q r end }
  val function sub (t: term) : term ensures { result = match t with Sp u -> u | Bang u -> u | _ -> t end }
  val function rest (l: tail) : tail ensures { result = match l with One _ _ -> l | Or _ _ _ r -> r | And _ _ _ r -> r end }
  val function fo_ (l: tail) : int ensures { result = fo l }
  val function skip (l: tail) : tail ensures { result = if fo l = -1 then One (Name 0) 0 else Or (Name 0) 0 (fo l) (fr l) }
  (* the reading of a condition, if it has one *)
  val function pick (m: map int int) (i e: int) : tail ensures { forall l. stail m i e l -> stail m i e result }
  (* the characters from i up to j are one of the names a[0..n) *)
  val function dnm (az: map int int) (ms: map int int) (a n: int) (m: map int int) : int -> int -> bool
  predicate isnm (az: map int int) (ms: map int int) (a x: int) (m: map int int) (i j: int) = ms[off az[off a x] (j - i)] = 0 /\ forall k. 0 <= k < j - i -> ms[off az[off a x] k] = m[off i k]
  axiom dnm_def: forall az ms a n m i j. dnm az ms a n m i j <-> exists x. 0 <= x < n /\ isnm az ms a x m i j
  let ghost dnm_frame (az ms: map int int) (a n: int) (m w: map int int) (i e: int) : unit requires { forall k. i <= k < e -> w[k] = m[k] } ensures { forall x y. i <= x <= y <= e -> dnm az ms a n m x y = dnm az ms a n w x y }
  = assert { forall x y d. i <= x <= y <= e -> (isnm az ms a d m x y <-> isnm az ms a d w x y) }
  let rec ghost eqn (m: map int int) (p: int) (w: map int int) (q n i: int) : unit requires { streqn m p w q n /\ 0 <= i <= n /\ forall k. 0 <= k < n -> w[off q k] <> 0 } variant { i } ensures { forall k. 0 <= k < i -> w[off q k] = m[off p k] }
  = if i > 0 then begin eqn m p w q n (i - 1); assert { w[off q (i - 1)] = m[off p (i - 1)] } end
  val stb (m: map int int) (i e: int) (l: tail) : bool ensures { result <-> stail m i e l }
  (* what the loop over the parenthesis needs: where it is closed *)
  (* the state of the scan before position p: a term is expected (ok = 1, neg: negated) or was read (res: its value and that of its conjunction); v is the value of the whole *)
  predicate st (m: map int int) (d: int -> int -> bool) (e: int) (v: bool) (p ok neg res: int) (g: tail)
  val ghost open_st (m: map int int) (d: int -> int -> bool) (e: int) (v: bool) (p ok neg res: int) (g: tail) : unit
    ensures { st m d e v p ok neg res g <-> (if ok = 1 then stail m p e g /\ vtail d p (neg = 1) true g = v else neg = 0 /\ srest m p e g /\ vrest d (res = 1) g = v) }
  let ghost st_init (m: map int int) (d: int -> int -> bool) (e: int) (p res: int) (g: tail) : unit requires { stail m p e g } ensures { st m d e (vtail d p false true g) p 1 0 res g }
  = open_st m d e (vtail d p false true g) p 1 0 res g
  let ghost st_chars (m: map int int) (d: int -> int -> bool) (e: int) (v: bool) (p ok neg res: int) (g: tail) : unit requires { st m d e v p ok neg res g }
    ensures { if ok = 1 then spc m[p] \/ alp m[p] \/ m[p] = 33 \/ m[p] = 40 else p = e \/ spc m[p] \/ (m[p] = 124 /\ m[p + 1] = 124) \/ (m[p] = 38 /\ m[p + 1] = 38) }
    ensures { ok <> 1 -> p = e -> not (wrd m[e]) -> not (spc m[e]) -> m[e] = 0 -> v = (res = 1) }
  = open_st m d e v p ok neg res g
  let ghost st_space (m: map int int) (d: int -> int -> bool) (e: int) (v: bool) (p ok neg res: int) (g: tail) : unit requires { st m d e v p ok neg res g /\ spc m[p] /\ p < e }
    ensures { st m d e v (p + 1) ok neg res (if ok = 1 then sethd (sub (hd g)) g else g) }
  = open_st m d e v p ok neg res g; open_st m d e v (p + 1) ok neg res (if ok = 1 then sethd (sub (hd g)) g else g);
    if ok = 1 then match g with One (Sp _) _ -> () | Or (Sp _) _ _ _ -> () | And (Sp _) _ _ _ -> () | _ -> () end
    else match g with One _ _ -> assert { srest m (p + 1) e g } | Or _ _ q _ -> assert { q <> p }; assert { srest m (p + 1) e g } | And _ _ q _ -> assert { q <> p }; assert { srest m (p + 1) e g } end
  let ghost st_bang (m: map int int) (d: int -> int -> bool) (e: int) (v: bool) (p neg res: int) (g: tail) : unit requires { st m d e v p 1 neg res g /\ m[p] = 33 /\ 0 <= neg <= 1 }
    ensures { st m d e v (p + 1) 1 (1 - neg) res (sethd (sub (hd g)) g) }
  = open_st m d e v p 1 neg res g; open_st m d e v (p + 1) 1 (1 - neg) res (sethd (sub (hd g)) g);
    match g with One (Bang _) _ -> () | Or (Bang _) _ _ _ -> () | And (Bang _) _ _ _ -> () | _ -> () end
  let ghost st_or (m: map int int) (d: int -> int -> bool) (e: int) (v: bool) (p neg res: int) (g: tail) : unit requires { st m d e v p 0 neg res g /\ m[p] = 124 /\ m[e] <> 124 }
    ensures { neg = 0 /\ (res = 1 -> v = true) /\ (res <> 1 -> st m d e v (p + 2) 1 0 res (rest g)) /\ p + 2 <= e }
  = open_st m d e v p 0 neg res g; open_st m d e v (p + 2) 1 0 res (rest g);
    match g with Or _ _ q r -> bal_tail m (q + 2) e r; assert { q = p } | And _ _ q _ -> assert { q = p } | One _ _ -> () end
  predicate nobar (m: map int int) (i e: int) = forall k. i <= k < e -> dp m i k = 0 -> m[k] <> 124
  let ghost st_and (m: map int int) (d: int -> int -> bool) (e: int) (v: bool) (p neg res: int) (g: tail) : unit requires { st m d e v p 0 neg res g /\ m[p] = 38 /\ m[e] <> 38 /\ p > 0 }
    ensures { neg = 0 /\ p + 2 <= e /\ (res = 1 -> st m d e v (p + 2) 1 0 1 (rest g)) }
    ensures { res <> 1 -> fo (skip (rest g)) = -1 -> v = false /\ nobar m (p + 2) e }
    ensures { res <> 1 -> fo (skip (rest g)) <> -1 -> p + 2 <= fo (skip (rest g)) < e /\ dp m (p + 2) (fo (skip (rest g))) = 0 /\ m[fo (skip (rest g))] = 124 /\ m[fo (skip (rest g)) + 1] = 124 /\ nobar m (p + 2) (fo (skip (rest g))) /\ st m d e v (fo (skip (rest g))) 0 0 res (skip (rest g)) }
  = open_st m d e v p 0 neg res g; open_st m d e v (p + 2) 1 0 1 (rest g); open_st m d e v (fo_ (rest g)) 0 0 res (skip (rest g));
    match g with And _ _ q r -> assert { q = p }; bal_tail m (q + 2) e r; skip_tail m d (q + 2) e false r | Or _ _ q _ -> assert { q = p } | One _ _ -> () end
  predicate str (m: map int int) (p e: int) = p <= e /\ m[e] = 0 /\ forall k. p <= k < e -> m[k] <> 0
  let ghost str_of (m: map int int) (p: int) : unit requires { isstr m p (slen m p) } ensures { str m p (p + slen m p) } = assert { forall k. m[off p (k - p)] = m[k] }
  let ghost str_to (m: map int int) (p e: int) : unit requires { str m p e } ensures { isstr m p (e - p) /\ slen m p = e - p } = assert { forall k. off p k = p + k }; assert { isstr m p (e - p) }
  function pc (t: term) : int = match t with Par c _ -> c | _ -> 0 end
  function pl (t: term) : tail = match t with Par _ l -> l | _ -> One (Name 0) 0 end
  val pl_ (t: term) : tail ensures { result = pl t }
  function b01 (b: bool) : int = if b then 1 else 0
  (* in front of a parenthesis; in front of a name *)
  let ghost st_paren (m: map int int) (d: int -> int -> bool) (e: int) (v: bool) (p neg res: int) (g: tail) : unit requires { st m d e v p 1 neg res g /\ m[p] = 40 }
    ensures { p + 1 < pc (hd g) < e /\ m[pc (hd g)] = 41 /\ stail m (p + 1) (pc (hd g)) (pl (hd g)) /\ dp m (p + 1) (pc (hd g)) = 0 }
    ensures { forall k. p + 1 <= k < pc (hd g) -> dp m (p + 1) k >= 0 /\ (m[k] = 41 -> dp m (p + 1) k > 0) }
    ensures { st m d e v (pc (hd g) + 1) 0 0 (b01 (xorb (neg = 1) (vtail d (p + 1) false true (pl (hd g))))) g }
  = open_st m d e v p 1 neg res g; open_st m d e v (pc (hd g) + 1) 0 0 (b01 (xorb (neg = 1) (vtail d (p + 1) false true (pl (hd g))))) g; bal_tail m p e g; match g with
    | One (Par c l) _ -> closing m (p + 1) c l
    | Or (Par c l) _ q r -> bal_tail m (q + 2) e r; closing m (p + 1) c l
    | And (Par c l) _ q r -> bal_tail m (q + 2) e r; closing m (p + 1) c l
    | _ -> ()
    end
  function ne (t: term) : int = match t with Name e -> e | _ -> 0 end
  let ghost st_name (m: map int int) (d: int -> int -> bool) (e: int) (v: bool) (p neg res: int) (g: tail) : unit requires { st m d e v p 1 neg res g /\ alp m[p] /\ not (wrd m[e]) }
    ensures { p < ne (hd g) <= e /\ not (wrd m[ne (hd g)]) /\ (forall k. p <= k < ne (hd g) -> wrd m[k]) }
    ensures { st m d e v (ne (hd g)) 0 0 (b01 (xorb (neg = 1) (d p (ne (hd g))))) g }
  = open_st m d e v p 1 neg res g; open_st m d e v (ne (hd g)) 0 0 (b01 (xorb (neg = 1) (d p (ne (hd g))))) g; bal_tail m p e g; match g with
    | One (Name _) _ -> ()
    | Or (Name _) _ q r -> bal_tail m (q + 2) e r
    | And (Name _) _ q r -> bal_tail m (q + 2) e r
    | _ -> ()
    end
  val vtl (d: int -> int -> bool) (i: int) (l: tail) : bool ensures { result = vtail d i false true l }
end
