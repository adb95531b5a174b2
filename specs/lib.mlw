module BitRel
  use int.Int
  use map.Map
  use clib.CDiv
  use clib.CMem
  use clib.CWord
  (* entry (a,c) of the bit matrix with rows of rs words starting at address r *)
  predicate e (m: map int word) (r rs a c: int)
  axiom e_def: forall m r rs a c [e m r rs a c].
    e m r rs a c <-> wbit (m[off (r + cmul a rs) (div c 64)]) (mod c 64)
  (* an arbitrary relation (uninterpreted, hence universally quantified in every proof): used to say "least" *)
  predicate xrel int int
  predicate xrel_trans = forall a b c [xrel a b, xrel b c]. xrel a b -> xrel b c -> xrel a c
end
module Grammar
  use int.Int
  use map.Map
  use clib.CMem
  (* d is the address of a -1 terminated list of exactly the rules whose left side is i *)
  predicate rules_of (m: map int int) (d: int) (lh: map int int) (plh nrules i: int) =
    exists l. 0 <= l /\ m[off d l] = -1 /\
      (forall k. 0 <= k < l -> 1 <= m[off d k] < nrules /\ lh[off plh (m[off d k])] = i) /\
      (forall r. 0 <= r < nrules -> lh[off plh r] = i -> exists k. 0 <= k < l /\ m[off d k] = r)
end
