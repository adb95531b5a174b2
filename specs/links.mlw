(* null-terminated linked lists: nx gives the successor of each node *)
module Links
  use int.Int
  use map.Map
  use clib.CDiv
  use clib.CMem
  type lst = Nil | Cons int lst
  predicate mem (x: int) (l: lst) = match l with Nil -> false | Cons h t -> x = h \/ mem x t end
  function app (l m: lst) : lst = match l with Nil -> m | Cons h t -> Cons h (app t m) end
  predicate dist (l: lst) = match l with Nil -> true | Cons h t -> not (mem h t) /\ dist t end
  val function memb (x: int) (l: lst) : bool ensures { result <-> mem x l }
  function ln (l: lst) : int = match l with Nil -> 0 | Cons _ t -> 1 + ln t end
  (* 2 to the power i *)
  function pw int : int
  axiom pw_0: pw 0 = 1
  axiom pw_s: forall i i1 [pw i, pw i1]. i >= 0 -> i1 = i + 1 -> pw i1 = 2 * pw i
  val function tl (l: lst) : lst ensures { result = match l with Nil -> Nil | Cons _ t -> t end }
  val function appc (l m: lst) : lst ensures { result = app l m }
  (* the list from p, and the part of a list from p up to (excluding) q *)
  predicate isl (nx: map int int) (p: int) (l: lst) = match l with Nil -> p = 0 | Cons h t -> p = h /\ p <> 0 /\ isl nx nx[p] t end
  predicate seg (nx: map int int) (p: int) (l: lst) (q: int) = match l with Nil -> p = q | Cons h t -> p = h /\ p <> 0 /\ seg nx nx[p] t q end
  (* the comparison: any total preorder *)
  val function cmpf (a b: int) : int
  axiom cmpf_trans: forall a b c [cmpf a b, cmpf b c]. cmpf a b <= 0 -> cmpf b c <= 0 -> cmpf a c <= 0
  axiom cmpf_total: forall a b. cmpf a b > 0 -> cmpf b a <= 0
  predicate sorted (l: lst) = match l with Nil -> true | Cons h t -> (forall x. mem x t -> cmpf h x <= 0) /\ sorted t end
  let rec lemma app_nil (l: lst) variant { l } ensures { app l Nil = l } = match l with Nil -> () | Cons _ t -> app_nil t end
  let rec lemma ln_pos (l: lst) variant { l } ensures { ln l >= 0 /\ (ln l = 0 <-> l = Nil) } = match l with Nil -> () | Cons _ t -> ln_pos t end
  let rec lemma ln_app (l m: lst) variant { l } ensures { ln (app l m) = ln l + ln m } = match l with Nil -> () | Cons _ t -> ln_app t m end
  let rec lemma mem_app (x: int) (l m: lst) variant { l } ensures { mem x (app l m) <-> mem x l \/ mem x m } = match l with Nil -> () | Cons _ t -> mem_app x t m end
  let rec lemma dist_app (l m: lst) variant { l } ensures { dist (app l m) <-> dist l /\ dist m /\ forall x. mem x l -> not (mem x m) } = match l with Nil -> () | Cons _ t -> dist_app t m end
  let rec lemma sorted_app (l m: lst) variant { l } ensures { sorted (app l m) <-> sorted l /\ sorted m /\ forall x y. mem x l -> mem y m -> cmpf x y <= 0 } = match l with Nil -> () | Cons _ t -> sorted_app t m end
  let rec lemma isl_unique (nx: map int int) (p: int) (l m: lst) requires { isl nx p l /\ isl nx p m } variant { l } ensures { l = m } = match l, m with Cons _ t, Cons _ u -> isl_unique nx nx[p] t u | _ -> () end
  let rec lemma isl_frame (nx ny: map int int) (p: int) (l: lst) requires { isl nx p l /\ forall x. mem x l -> ny[x] = nx[x] } variant { l } ensures { isl ny p l } = match l with Nil -> () | Cons _ t -> isl_frame nx ny nx[p] t end
  let rec lemma seg_frame (nx ny: map int int) (p: int) (l: lst) (q: int) requires { seg nx p l q /\ forall x. mem x l -> ny[x] = nx[x] } variant { l } ensures { seg ny p l q } = match l with Nil -> () | Cons _ t -> seg_frame nx ny nx[p] t q end
  let rec lemma seg_app (nx: map int int) (p: int) (l m: lst) (q r: int) requires { seg nx p l q /\ seg nx q m r } variant { l } ensures { seg nx p (app l m) r } = match l with Nil -> () | Cons _ t -> seg_app nx nx[p] t m q r end
  let rec lemma seg_isl (nx: map int int) (p: int) (l m: lst) (q: int) requires { seg nx p l q /\ isl nx q m } variant { l } ensures { isl nx p (app l m) } = match l with Nil -> () | Cons _ t -> seg_isl nx nx[p] t m q end
  (* l without x *)
  function rm (x: int) (l: lst) : lst = match l with Nil -> Nil | Cons h t -> if h = x then t else Cons h (rm x t) end
  let rec lemma rm_spec (x: int) (l: lst) requires { dist l } variant { l } ensures { dist (rm x l) /\ (forall y. mem y (rm x l) <-> mem y l /\ y <> x) /\ (mem x l -> ln (rm x l) = ln l - 1) } = match l with Nil -> () | Cons _ t -> rm_spec x t end
  val function rm_of (x: int) (l: lst) : lst ensures { result = rm x l }
  let rec ghost incl_ln (l m: lst) : unit requires { dist l /\ dist m /\ forall x. mem x l -> mem x m } variant { l } ensures { ln l <= ln m } = match l with Nil -> () | Cons h t -> let r = rm_of h m in incl_ln t r end
  let lemma isl_nil (nx: map int int) (l: lst) requires { isl nx 0 l } ensures { l = Nil } = ()
  (* the list that starts at p, if there is one (it is unique by isl_unique) *)
  val function lof (nx: map int int) (p: int) : lst
  axiom lof_def: forall nx p l. isl nx p l -> lof nx p = l
  let lemma lof_0 (nx: map int int) ensures { lof nx 0 = Nil } = assert { isl nx 0 Nil }
end
