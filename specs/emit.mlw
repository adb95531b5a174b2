(* generated text: words, strings (by address) and numbers; white space and comments are left txt *)
module Emit
  use int.Int
  use map.Map
  type item = Ch int | St int | Nu int
  val ref txt : map int item
  val ref txtn : int
  val emit_ch (c: int) : unit writes { txt, txtn } ensures { txt = Map.set (old txt) (old txtn) (Ch c) /\ txtn = old txtn + 1 }
  val emit_st (p: int) : unit writes { txt, txtn } ensures { txt = Map.set (old txt) (old txtn) (St p) /\ txtn = old txtn + 1 }
  val emit_nu (n: int) : unit writes { txt, txtn } ensures { txt = Map.set (old txt) (old txtn) (Nu n) /\ txtn = old txtn + 1 }
  constant w_produces : item = Ch 3815997
  constant w_colon : item = Ch 58
  constant w_bar : item = Ch 124
  constant w_semi : item = Ch 59
  constant w_prec : item = Ch 160800335203
  constant w_dot : item = Ch 46
  constant w_open : item = Ch 91
  constant w_brack : item = Ch 93
  constant w_lt : item = Ch 60
  constant w_gt : item = Ch 62
  (* names in lemon's notation, and the symbol with a name; arbitrary *)
  function bk int : int
  function tokf int : int
  function rulf int : int
  val lookup_ (p: int) : int ensures { result = bk p }
  val tokname (b p: int) : int ensures { result = tokf p }
  val rulname (b p: int) : int ensures { result = rulf p }
end
