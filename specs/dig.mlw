module Dig
  use int.Int
  use map.Map
  use ref.Ref
  use clib.CDiv
  use clib.CMem
  use clib.CWord
  use lib.BitRel
  (* everything is stated for one arbitrary bit gb; lv: membership of that bit in an arbitrary family of sets closed under the relation;
     f0: membership in the initial sets; len v: number of successors of v *)
  constant gb : int
  predicate lv int
  predicate f0 int
  function len int : int
  (* stack position of a vertex *)
  val ref gpos : map int int
  predicate wf (ix: map int int) (pix: int) (vt: map int int) (pvt: int) (pos: map int int) (top n: int) =
    0 <= top <= n /\
    (forall p. 1 <= p <= top -> 0 <= vt[off pvt p] < n /\ pos[vt[off pvt p]] = p /\ 1 <= ix[off pix (vt[off pvt p])] <= p) /\
    (forall v. 0 <= v < n -> ix[off pix v] = 0 \/ ix[off pix v] = n + 2 \/ (1 <= pos[v] <= top /\ vt[off pvt pos[v]] = v))
  (* v is finished: its set contains its initial set and the sets of all its finished successors; its other successors are still on the stack *)
  predicate black (f: map int word) (pf rs: int) (ix: map int int) (pix: int) (pos: map int int) (rm: map int int) (pr: int) (r2: map int int) (n v: int) =
    (f0 v -> e f pf rs v gb) /\ forall k. 0 <= k < len v -> let j = r2[off rm[off pr v] k] in
      ix[off pix j] <> 0 /\ (if ix[off pix j] = n + 2 then (e f pf rs j gb -> e f pf rs v gb) else ix[off pix v] <> n + 2 /\ ix[off pix v] <= pos[j])
  (* an injection from 1..t into 0..n-1 *)
  let rec lemma pigeon (vt: map int int) (pvt: int) (pos: map int int) (t n: int)
    requires { 0 <= t /\ 0 <= n }
    requires { forall p. 1 <= p <= t -> 0 <= vt[off pvt p] < n /\ pos[vt[off pvt p]] = p }
    ensures { t <= n }
    variant { n }
  = if t > 0 then begin
      assert { 0 <= vt[off pvt t] < n };
      let q = pos[n - 1] in
      if 1 <= q <= t && vt[off pvt q] = n - 1 then begin
        let w = vt[off pvt t] in
        pigeon (mset vt (off pvt q) w) pvt (mset pos w q) (t - 1) (n - 1)
      end else pigeon vt pvt pos t (n - 1)
    end
  let lemma room (ix: map int int) (pix: int) (vt: map int int) (pvt: int) (pos: map int int) (top n i: int)
    requires { wf ix pix vt pvt pos top n /\ 0 <= i < n /\ ix[off pix i] = 0 }
    ensures { top < n }
  = pigeon (mset vt (off pvt (top + 1)) i) pvt (mset pos i (top + 1)) (top + 1) n
end
