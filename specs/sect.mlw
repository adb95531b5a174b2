(* conditional sections: which lines of a text are kept *)
module Sect
  use int.Int
  use map.Map
  use bool.Bool
  use clib.CDiv
  use clib.CMem
  use clib.CChar
  use clib.CStr
  use cond.Cond
  (* line starts and directives, by their characters *)
  predicate sol (h: map int int) (z p: int) = p = z \/ h[p - 1] = 10
  val solb (h: map int int) (z p: int) : bool ensures { result <-> sol h z p }
  predicate opn int
  axiom opn_all: forall p. opn p
  predicate wendif (h: map int int) (p: int)
  axiom wendif_def: forall h p [wendif h p, opn p]. wendif h p <-> h[p] = 37 /\ h[p + 1] = 101 /\ h[p + 2] = 110 /\ h[p + 3] = 100 /\ h[p + 4] = 105 /\ h[p + 5] = 102
  predicate welse (h: map int int) (p: int)
  axiom welse_def: forall h p [welse h p, opn p]. welse h p <-> h[p] = 37 /\ h[p + 1] = 101 /\ h[p + 2] = 108 /\ h[p + 3] = 115 /\ h[p + 4] = 101
  predicate wif (h: map int int) (p: int)
  axiom wif_def: forall h p [wif h p, opn p]. wif h p <-> h[p] = 37 /\ h[p + 1] = 105 /\ h[p + 2] = 102 /\ h[p + 3] = 32
  predicate wifdef (h: map int int) (p: int)
  axiom wifdef_def: forall h p [wifdef h p, opn p]. wifdef h p <-> h[p] = 37 /\ h[p + 1] = 105 /\ h[p + 2] = 102 /\ h[p + 3] = 100 /\ h[p + 4] = 101 /\ h[p + 5] = 102 /\ h[p + 6] = 32
  predicate wifndef (h: map int int) (p: int)
  axiom wifndef_def: forall h p [wifndef h p, opn p]. wifndef h p <-> h[p] = 37 /\ h[p + 1] = 105 /\ h[p + 2] = 102 /\ h[p + 3] = 110 /\ h[p + 4] = 100 /\ h[p + 5] = 101 /\ h[p + 6] = 102 /\ h[p + 7] = 32
  lemma lit_endif: forall m p w q [sncmp m p w q 6]. w[off q 0] = 37 -> w[off q 1] = 101 -> w[off q 2] = 110 -> w[off q 3] = 100 -> w[off q 4] = 105 -> w[off q 5] = 102 -> (sncmp m p w q 6 = 0 <-> wendif m p)
    by (opn p /\ off p 0 = p + 0 /\ off p 1 = p + 1 /\ off p 2 = p + 2 /\ off p 3 = p + 3 /\ off p 4 = p + 4 /\ off p 5 = p + 5)
  lemma lit_else: forall m p w q [sncmp m p w q 5]. w[off q 0] = 37 -> w[off q 1] = 101 -> w[off q 2] = 108 -> w[off q 3] = 115 -> w[off q 4] = 101 -> (sncmp m p w q 5 = 0 <-> welse m p)
    by (opn p /\ off p 0 = p + 0 /\ off p 1 = p + 1 /\ off p 2 = p + 2 /\ off p 3 = p + 3 /\ off p 4 = p + 4)
  lemma lit_if: forall m p w q [sncmp m p w q 4]. w[off q 0] = 37 -> w[off q 1] = 105 -> w[off q 2] = 102 -> w[off q 3] = 32 -> (sncmp m p w q 4 = 0 <-> wif m p)
    by (opn p /\ off p 0 = p + 0 /\ off p 1 = p + 1 /\ off p 2 = p + 2 /\ off p 3 = p + 3)
  lemma lit_ifdef: forall m p w q [sncmp m p w q 7]. w[off q 0] = 37 -> w[off q 1] = 105 -> w[off q 2] = 102 -> w[off q 3] = 100 -> w[off q 4] = 101 -> w[off q 5] = 102 -> w[off q 6] = 32 -> (sncmp m p w q 7 = 0 <-> wifdef m p)
    by (opn p /\ off p 0 = p + 0 /\ off p 1 = p + 1 /\ off p 2 = p + 2 /\ off p 3 = p + 3 /\ off p 4 = p + 4 /\ off p 5 = p + 5 /\ off p 6 = p + 6)
  lemma lit_ifndef: forall m p w q [sncmp m p w q 8]. w[off q 0] = 37 -> w[off q 1] = 105 -> w[off q 2] = 102 -> w[off q 3] = 110 -> w[off q 4] = 100 -> w[off q 5] = 101 -> w[off q 6] = 102 -> w[off q 7] = 32 -> (sncmp m p w q 8 = 0 <-> wifndef m p)
    by (opn p /\ off p 0 = p + 0 /\ off p 1 = p + 1 /\ off p 2 = p + 2 /\ off p 3 = p + 3 /\ off p 4 = p + 4 /\ off p 5 = p + 5 /\ off p 6 = p + 6 /\ off p 7 = p + 7)
  let ghost w_same (m h: map int int) (p: int) : unit requires { forall q. q >= p -> m[q] = h[q] } ensures { (wendif m p <-> wendif h p) /\ (welse m p <-> welse h p) /\ (wif m p <-> wif h p) /\ (wifdef m p <-> wifdef h p) /\ (wifndef m p <-> wifndef h p) } = assert { opn p }
  predicate isend (h: map int int) (z p: int)
  predicate iselse (h: map int int) (z p: int)
  predicate isif (h: map int int) (z p: int)
  val ghost open_dir (h: map int int) (z p: int) : unit
    ensures { isend h z p <-> sol h z p /\ wendif h p /\ spc h[p + 6] }
    ensures { iselse h z p <-> sol h z p /\ welse h p /\ spc h[p + 5] }
    ensures { isif h z p <-> sol h z p /\ (wif h p \/ wifdef h p \/ wifndef h p) }
  predicate dir (h: map int int) (z p: int) = isend h z p \/ iselse h z p \/ isif h z p
  val isdir (h: map int int) (z p: int) : bool ensures { result <-> dir h z p }
  (* the condition: from the first blank to the end of the line *)
  function cb (h: map int int) (p: int) : int = if h[p + 3] = 32 then p + 3 else if h[p + 3] = 100 then p + 6 else p + 7
  function eol (h: map int int) (p: int) : int
  axiom eol_def: forall h p e. str h p e -> p <= eol h p <= e /\ (h[eol h p] = 0 \/ h[eol h p] = 10) /\ forall k. p <= k < eol h p -> h[k] <> 0 /\ h[k] <> 10
  let ghost dir_chars (h: map int int) (z p: int) : unit
    ensures { dir h z p -> h[p] = 37 }
    ensures { isif h z p -> p < cb h p /\ h[cb h p] = 32 /\ forall q. p <= q < cb h p -> not (spc h[q]) /\ h[q] <> 0 }
    ensures { isif h z p -> (h[p + 3] = 110 <-> cb h p = p + 7) }
  = open_dir h z p; assert { opn p }
  (* whether the directive's section is kept; d tells the defined names *)
  function holds (h: map int int) (d: int -> int -> bool) (p: int) : bool = xorb (h[p + 3] = 110) (vtail d (cb h p) false true (pick h (cb h p) (eol h p)))
  (* the conditions of the enclosing sections, innermost first *)
  type stk = Bot | Push bool stk
  function pop (s: stk) : stk = match s with Bot -> Bot | Push _ t -> t end
  function flip (s: stk) : stk = match s with Bot -> Push false Bot | Push b t -> Push (notb b) t end
  (* 0 if all of them hold, else the depth inside the outermost that does not *)
  function exc (s: stk) : int = match s with Bot -> 0 | Push b t -> if exc t > 0 then exc t + 1 else if b then 0 else 1 end
  predicate allhold (s: stk) = match s with Bot -> true | Push b t -> b /\ allhold t end
  let rec lemma exc_all (s: stk) ensures { exc s >= 0 /\ (exc s = 0 <-> allhold s) } variant { s } = match s with Bot -> () | Push _ t -> exc_all t end
  function sk (h: map int int) (d: int -> int -> bool) (z p: int) : stk
  axiom sk_0: forall h d z. sk h d z z = Bot
  axiom sk_s: forall h d z p q [sk h d z p, sk h d z q]. p >= z -> q = p + 1 -> sk h d z q = (if isend h z p then pop (sk h d z p) else if iselse h z p then flip (sk h d z p) else if isif h z p then Push (holds h d p) (sk h d z p) else sk h d z p)
  (* on the line of a directive at or before q *)
  predicate onl (h: map int int) (z q: int)
  val ghost open_onl (h: map int int) (z: int) : unit ensures { forall q. onl h z q <-> exists x. z <= x <= q /\ dir h z x /\ forall k. x <= k < q -> h[k] <> 10 }
  let ghost line_on (h: map int int) (z x b: int) : unit requires { z <= x /\ dir h z x /\ forall k. x <= k < b -> h[k] <> 10 } ensures { forall q. x <= q < b -> onl h z q } = open_onl h z
  let ghost line_off (h: map int int) (z q b: int) : unit requires { (forall x. z <= x <= q -> dir h z x -> x < b) /\ (b = z \/ h[b] = 10) /\ b < q } ensures { not (onl h z q) } = open_onl h z
  let ghost line_first (h: map int int) (z: int) : unit requires { not (dir h z z) } ensures { not (onl h z z) } = open_onl h z
  (* what is left of the character at q *)
  predicate left (h w: map int int) (d: int -> int -> bool) (z q: int)
  (* not all conditions hold, see exc_all *)
  axiom left_def: forall h w d z q [left h w d z q]. left h w d z q <-> w[q] = (if h[q] = 10 then 10 else if onl h z q \/ exc (sk h d z q) > 0 then 32 else h[q])
  predicate lefts (h w: map int int) (d: int -> int -> bool) (z a b: int) = forall q [w[q]]. a <= q < b -> left h w d z q
  let ghost lefts_close (h w0 w: map int int) (d: int -> int -> bool) (z s b: int) : unit
    requires { lefts h w0 d z z (s + 1) /\ z <= s < b /\ onl h z s /\ (forall q. s < q < b -> exc (sk h d z q) > 0) }
    requires { (forall q. z <= q < s -> w[q] = w0[q]) /\ forall q. s <= q < b -> w[q] = (if h[q] = 10 then 10 else 32) }
    ensures { lefts h w d z z b }
  = assert { forall q. z <= q < b -> left h w d z q by left h w0 d z q \/ q > s }
  predicate excl (h w: map int int) (z s b: int) = forall q [w[q]]. s < q < b -> w[q] = (if h[q] <> 10 /\ onl h z q then 32 else h[q])
  let ghost excl_next (h w: map int int) (z s b: int) : unit ensures { s >= b -> excl h w z s (b + 1) } ensures { excl h w z s b -> w[b] = (if h[b] <> 10 /\ onl h z b then 32 else h[b]) -> excl h w z s (b + 1) }
  = assert { excl h w z s b -> forall q. s < q < b + 1 -> q = b \/ w[q] = (if h[q] <> 10 /\ onl h z q then 32 else h[q]) }
end
