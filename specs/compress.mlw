(* action lists of lemon's states: node q belongs to state own q *)
module Compress
  use int.Int
  use map.Map
  use clib.CMem
  use links.Links
  val function own int : int
  val function sid int : int
  constant dsym : int
  val new_default (name: int) : int ensures { result = dsym }
  (* every state's list is a list of exactly its own nodes *)
  predicate owned (nx: map int int) (p i: int) = isl nx p (lof nx p) /\ dist (lof nx p) /\ forall q. mem q (lof nx p) <-> own q = i
  predicate short (nx: map int int) (p: int) = ln (lof nx p) < pw 29
  let lemma owned_frame (nx ny: map int int) (p i: int) requires { owned nx p i /\ forall q. own q = i -> ny[q] = nx[q] } ensures { owned ny p i /\ lof ny p = lof nx p } = isl_frame nx ny p (lof nx p)
  (* one step of a chain of unit rules without code: what q does in its state is what q2 does there *)
  predicate link (ty ru sp noc nrh lhs: map int int) (sr q q2: int) =
    ty[q] = sr /\ noc[ru[q]] <> 0 /\ nrh[ru[q]] = 1 /\ own q2 = own q /\ sp[q2] = lhs[ru[q]]
  inductive chain (ty ru sp noc nrh lhs: map int int) (sr q q2: int) =
  | chain_0: forall ty ru sp noc nrh lhs sr q. chain ty ru sp noc nrh lhs sr q q
  | chain_1: forall ty ru sp noc nrh lhs sr q q2. link ty ru sp noc nrh lhs sr q q2 -> chain ty ru sp noc nrh lhs sr q q2
  | chain_t: forall ty ru sp noc nrh lhs sr q q1 q2. chain ty ru sp noc nrh lhs sr q q1 -> chain ty ru sp noc nrh lhs sr q1 q2 -> chain ty ru sp noc nrh lhs sr q q2
end
