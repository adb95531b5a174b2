== eval_preprocessor_boolean files=lemon/lemon.c props=L11
opt chars
use cond.Cond
use bool.Bool
requires string: isstr #heap(z[]) z (slen #heap(z[]) z) /\ z > 0
requires chars: forall p. -128 <= #heap(z[])[p] <= 127
ensures value: (exists l. stail (old #heap(z[])) z (z + slen (old #heap(z[])) z) l) -> result = (if vtail (dnm #heap(lem->azDefine[]) #heap(lem->azDefine[][]) #lem->azDefine #lem->nDefine (old #heap(z[]))) z false true (pick (old #heap(z[])) z (z + slen (old #heap(z[])) z)) then 1 else 0)
ensures range: result <= 1
ensures same: #heap(z[]) = old #heap(z[])
ghost let h0 = #heap(z[]) in
ghost let e = z + slen #heap(z[]) z in
ghost let d = dnm #heap(lem->azDefine[]) #heap(lem->azDefine[][]) #lem->azDefine #lem->nDefine h0 in
ghost let l0 = pick h0 z (z + slen h0 z) in
ghost let ref gt = pick h0 z (z + slen h0 z) in
ghost let ref gw = stb h0 z (z + slen h0 z) (pick h0 z (z + slen h0 z)) in
store res#4: assert { forall k. 0 <= k < k_2 - i -> wrd h0[off (off z i) k] by off (off z i) k = z + i + k };
 eqn #heap(lem->azDefine[][]) (#heap(lem->azDefine[])[off #lem->azDefine j]) #heap(z[]) (off z i) (k_2 - i) (k_2 - i); assert { off z i = z + i };
 assert { isnm #heap(lem->azDefine[]) #heap(lem->azDefine[][]) #lem->azDefine j h0 (z + i) (z + k_2) };
 assert { d (z + i) (z + k_2) };
store res#1: assert { gw -> res = b01 (vtail d (p0 + 1) false true (pl (hd gt))) };
before_call eval_preprocessor_boolean: str_to #heap(z[]) (z + i + 1) (z + k); assert { off z (i + 1) = z + i + 1 };
 if gw then begin assert { z + k = pc (hd gt) };
  dnm_frame #heap(lem->azDefine[]) #heap(lem->azDefine[][]) #lem->azDefine #lem->nDefine h0 #heap(z[]) (z + i + 1) (z + k);
  frame_tail h0 #heap(z[]) d (dnm #heap(lem->azDefine[]) #heap(lem->azDefine[][]) #lem->azDefine #lem->nDefine #heap(z[])) (z + i + 1) (z + k) false true (pl_ (hd gt));
  uni_tail #heap(z[]) (z + i + 1) (z + k) (pl_ (hd gt)) (pick #heap(z[]) (z + i + 1) (z + k)) end;
at return: assert { gw -> ret_ = (if vtail d z false true l0 then 1 else 0) };
 assert { gw <-> exists l. stail h0 z e l };
at goto: assert { not gw };
at continue: assert { gw -> st h0 d e (vtail d z false true l0) (z + i + 1) okTerm neg res gt };
loop 1
before: str_of h0 z; if gw then st_init h0 d e z res gt;
inv same: #heap(z[]) = h0
inv str: str h0 z e
inv i: 0 <= i <= e - z
inv flags: 0 <= okTerm <= 1 /\ 0 <= res <= 1 /\ 0 <= neg <= 1
inv gw: gw <-> stail h0 z e l0
inv st: gw -> st h0 d e (vtail d z false true l0) (z + i) okTerm neg res gt
body: let p0 = z + i in let c = h0[z + i] in
 if gw then begin
  st_chars h0 d e (vtl d z l0) (z + i) okTerm neg res gt;
  if c = 32 || (9 <= c && c <= 13) then begin st_space h0 d e (vtl d z l0) (z + i) okTerm neg res gt; if okTerm = 1 then gt <- sethd (sub (hd gt)) gt end
  else if c = 33 && okTerm = 1 then begin st_bang h0 d e (vtl d z l0) (z + i) neg res gt; gt <- sethd (sub (hd gt)) gt end
  else if c = 124 && okTerm = 0 then begin st_or h0 d e (vtl d z l0) (z + i) neg res gt; gt <- rest gt end
  else if c = 38 && okTerm = 0 then begin st_and h0 d e (vtl d z l0) (z + i) neg res gt; gt <- (if res = 1 then rest gt else skip (rest gt)) end
  else if c = 40 && okTerm = 1 then st_paren h0 d e (vtl d z l0) (z + i) neg res gt
  else if okTerm = 1 then st_name h0 d e (vtl d z l0) (z + i) neg res gt
 end;
 assert { gw -> spc c -> st h0 d e (vtail d z false true l0) (z + i + 1) okTerm neg res gt };
 assert { gw -> okTerm = 1 -> c = 33 -> st h0 d e (vtail d z false true l0) (z + i + 1) 1 (1 - neg) res gt };
 assert { gw -> okTerm = 0 -> c = 124 -> neg = 0 /\ (res = 1 -> vtail d z false true l0 = true) /\ (res <> 1 -> st h0 d e (vtail d z false true l0) (z + i + 2) 1 0 res gt) /\ z + i + 2 <= e };
 assert { gw -> okTerm = 0 -> c = 38 -> neg = 0 /\ z + i + 2 <= e /\ (res = 1 -> st h0 d e (vtail d z false true l0) (z + i + 2) 1 0 1 gt) /\
   (res = 0 -> fo gt = -1 -> vtail d z false true l0 = false /\ nobar h0 (z + i + 2) e) /\
   (res = 0 -> fo gt <> -1 -> z + i + 2 <= fo gt < e /\ dp h0 (z + i + 2) (fo gt) = 0 /\ h0[fo gt] = 124 /\ h0[fo gt + 1] = 124 /\ nobar h0 (z + i + 2) (fo gt) /\ st h0 d e (vtail d z false true l0) (fo gt) 0 0 0 gt) };
 assert { gw -> okTerm = 1 -> c = 40 -> z + i + 1 < pc (hd gt) < e /\ h0[pc (hd gt)] = 41 /\ stail h0 (z + i + 1) (pc (hd gt)) (pl (hd gt)) /\ dp h0 (z + i + 1) (pc (hd gt)) = 0 };
 assert { gw -> okTerm = 1 -> c = 40 -> forall k. z + i + 1 <= k < pc (hd gt) -> dp h0 (z + i + 1) k >= 0 /\ (h0[k] = 41 -> dp h0 (z + i + 1) k > 0) };
 assert { gw -> okTerm = 1 -> c = 40 -> st h0 d e (vtail d z false true l0) (pc (hd gt) + 1) 0 0 (b01 (xorb (neg = 1) (vtail d (z + i + 1) false true (pl (hd gt))))) gt };
 assert { gw -> okTerm = 1 -> alp c -> z + i < ne (hd gt) <= e /\ not (wrd h0[ne (hd gt)]) /\ (forall k. z + i <= k < ne (hd gt) -> wrd h0[k]) /\ st h0 d e (vtail d z false true l0) (ne (hd gt)) 0 0 (b01 (xorb (neg = 1) (d (z + i) (ne (hd gt))))) gt };
 assert { gw -> if okTerm = 1 then spc c \/ alp c \/ c = 33 \/ c = 40 else spc c \/ (c = 124 /\ h0[z + i + 1] = 124) \/ (c = 38 /\ h0[z + i + 1] = 38) };
after: if gw then st_chars h0 d e (vtl d z l0) (z + i) okTerm neg res gt;
loop 2
inv i: (i at L2) <= i <= e - z
inv same: #heap(z[]) = h0
inv n: n = dp h0 (z + (i at L2)) (z + i)
body: assert { dp h0 (z + (i at L2)) (z + i + 1) = dp h0 (z + (i at L2)) (z + i) + par h0[z + i] };
inv none: forall p. z + (i at L2) <= p < z + i -> dp h0 (z + (i at L2)) p = 0 -> h0[p] <> 124 \/ h0[p + 1] <> 124
inv upto: gw -> fo gt <> -1 -> z + i <= fo gt
after: assert { h0[z + i] <> 0 -> dp h0 (p0 + 2) (z + i) = 0 /\ h0[z + i] = 124 /\ h0[z + i + 1] = 124 /\ z + i < e };
 assert { gw -> h0[z + i] <> 0 -> fo gt <> -1 };
 assert { gw -> h0[z + i] <> 0 -> fo gt = z + i };
 assert { gw -> h0[z + i] = 0 -> fo gt = -1 };
 assert { gw -> if h0[z + i] = 0 then vtail d z false true l0 = false else st h0 d e (vtail d z false true l0) (z + i) 0 0 res gt };
loop 3
inv k: i + 1 <= k <= e - z /\ i = (i at L3)
inv same: #heap(z[]) = h0
inv n: n_2 = 1 + dp h0 (z + i + 1) (z + k) 
inv n1: gw -> z + k <= pc (hd gt)
inv res: 0 <= res <= 1
body: assert { dp h0 (z + i + 1) (z + k + 1) = dp h0 (z + i + 1) (z + k) + par h0[z + k] };
after: assert { gw -> z + i = pc (hd gt) };
 assert { gw -> res = b01 (vtail d (p0 + 1) false true (pl (hd gt))) };
 assert { gw -> (if neg = 1 then 1 - res else res) = b01 (xorb (neg = 1) (vtail d (p0 + 1) false true (pl (hd gt)))) };
 assert { gw -> st h0 d e (vtail d z false true l0) (z + i + 1) 0 0 (if neg = 1 then 1 - res else res) gt };
loop 4
before: assert { alp h0[z + i] };
inv k: i + 1 <= k_2 <= e - z
body: assert { wrd h0[z + k_2] };
inv word: forall p. z + i <= p < z + k_2 -> wrd h0[p]
after: assert { gw -> z + k_2 = ne (hd gt) };
loop 5
inv res: res = 0 /\ 0 <= j
inv none: forall x. 0 <= x < j -> not (isnm #heap(lem->azDefine[]) #heap(lem->azDefine[][]) #lem->azDefine x h0 (z + i) (z + k_2))
after: assert { res = 0 -> not (d (z + i) (z + k_2)) };
 assert { res = 1 <-> d (z + i) (z + k_2) };
 assert { gw -> st h0 d e (vtail d z false true l0) (z + k_2) 0 0 (if neg = 1 then 1 - res else res) gt };

== preprocess_input files=lemon/lemon.c props=L11
opt chars
opt strlits
use sect.Sect
use cond.Cond
use bool.Bool
use int.MinMax
requires string: isstr #heap(z[]) z (slen #heap(z[]) z) /\ z > 0
requires chars: forall p. -128 <= #heap(z[])[p] <= 127
requires conditions: forall q. z <= q < z + slen #heap(z[]) z -> isif #heap(z[]) z q -> stail #heap(z[]) (cb #heap(z[]) q) (eol #heap(z[]) q) (pick #heap(z[]) (cb #heap(z[]) q) (eol #heap(z[]) q))
ensures text: forall q. z <= q < z + slen (old #heap(z[])) z -> left (old #heap(z[])) #heap(z[]) (dnm #heap(lem->azDefine[]) #heap(lem->azDefine[][]) #lem->azDefine #lem->nDefine (old #heap(z[]))) z q
ensures others: forall q. q < z \/ q >= z + slen (old #heap(z[])) z -> #heap(z[])[q] = (old #heap(z[]))[q]
ensures closed: allhold (sk (old #heap(z[])) (dnm #heap(lem->azDefine[]) #heap(lem->azDefine[][]) #lem->azDefine #lem->nDefine (old #heap(z[]))) z (z + slen (old #heap(z[])) z))
ghost let h0 = #heap(z[]) in
ghost let e = z + slen #heap(z[]) z in
ghost let d = dnm #heap(lem->azDefine[]) #heap(lem->azDefine[][]) #lem->azDefine #lem->nDefine h0 in
ghost let ref gb = z in
before_call eval_preprocessor_boolean: str_to #heap(z[]) (z + iBool) (z + j); assert { off z iBool = z + iBool };
 dnm_frame #heap(lem->azDefine[]) #heap(lem->azDefine[][]) #lem->azDefine #lem->nDefine h0 #heap(z[]) (z + iBool) (z + j);
 frame_tail h0 #heap(z[]) d (dnm #heap(lem->azDefine[]) #heap(lem->azDefine[][]) #lem->azDefine #lem->nDefine #heap(z[])) (z + iBool) (z + j) false true (pick h0 (z + iBool) (z + j));
 uni_tail #heap(z[]) (z + iBool) (z + j) (pick h0 (z + iBool) (z + j)) (pick #heap(z[]) (z + iBool) (z + j));
store exclude#5: assert { exclude = b01 (vtail d (z + iBool) false true (pick h0 (z + iBool) (z + j))) };
 assert { isNot = 1 <-> h0[z + i + 3] = 110 }; assert { exclude = (if isNot = 1 then b01 (notb (holds h0 d (z + i))) else b01 (holds h0 d (z + i))) };
loop 1
before: str_of h0 z;
inv str: str h0 z e
inv i: 0 <= i <= e - z
inv others: forall q. q < z \/ q >= e -> #heap(z[])[q] = h0[q]
inv rest: forall q. z + i <= q < e -> #heap(z[])[q] = (if q < gb then 32 else h0[q])
inv blank: z <= gb <= e /\ (forall q. z <= q -> z + i - 1 <= q < gb -> h0[q] <> 10) /\ (z + i < gb -> i > 0) /\ (forall q. z + i <= q < gb -> onl h0 z q)
inv dirs: forall x. z <= x < z + i -> dir h0 z x -> x < gb
inv nl: gb = z \/ h0[gb] = 10 \/ gb = e
inv exclude: exclude = exc (sk h0 d z (z + i))
inv start: exclude > 0 -> 0 <= start < i /\ dir h0 z (z + start) /\ h0[z + start] = 37 /\ forall q. z + start < q <= z + i -> exc (sk h0 d z q) > 0
inv done: lefts h0 #heap(z[]) d z z (if exclude > 0 then z + start + 1 else z + i)
inv excluded: exclude > 0 -> excl h0 #heap(z[]) z (z + start) (z + i)
body: label L1b in assert { forall c. -128 <= c <= 127 -> (ct_space (uch c) <> 0 <-> spc c) }; let ref gd = false in open_dir h0 z (z + i);
 assert { forall q. z <= q < z + i -> (#heap(z[])[q] = 10 <-> h0[q] = 10) };
 assert { gb <= z + i \/ (gb > z + i /\ i > 0 /\ h0[z + i - 1] <> 10) };
 assert { sol h0 z (z + i) -> forall q. q >= z + i -> #heap(z[])[q] = h0[q] };
 let sol_ = solb h0 z (z + i) in if sol_ then w_same #heap(z[]) h0 (z + i);
 assert { off z i = z + i }; assert { sol h0 z (z + i) <-> (i = 0 \/ #heap(z[])[off z (i - 1)] = 10) };
 assert { exclude >= 0 }; assert { str h0 (z + i) e }; assert { sk h0 d z (z + i + 1) = (if isend h0 z (z + i) then pop (sk h0 d z (z + i)) else if iselse h0 z (z + i) then flip (sk h0 d z (z + i)) else if isif h0 z (z + i) then Push (holds h0 d (z + i)) (sk h0 d z (z + i)) else sk h0 d z (z + i)) };
 assert { exc (pop (sk h0 d z (z + i))) = (if exclude > 0 then exclude - 1 else 0) }; assert { exc (flip (sk h0 d z (z + i))) = (if exclude = 0 then 1 else if exclude = 1 then 0 else exclude) };
 assert { forall b. exc (Push b (sk h0 d z (z + i))) = (if exclude > 0 then exclude + 1 else if b then 0 else 1) };
 assert { z + i <= eol h0 (z + i) <= e }; assert { h0[eol h0 (z + i)] = 0 \/ h0[eol h0 (z + i)] = 10 }; assert { forall q. z + i <= q < eol h0 (z + i) -> h0[q] <> 0 /\ h0[q] <> 10 };
 dir_chars h0 z (z + i); assert { sol h0 z (z + i) <-> sol_ };
 let pi = z + i in
 if gb < pi && not (isdir h0 z pi) then begin assert { forall x. z <= x <= z + i -> dir h0 z x -> x < gb by x <> z + i }; assert { gb <> e }; line_off h0 z pi gb end;
 if gb = pi && not (isdir h0 z pi) && h0[pi] <> 10 then begin assert { gb = z }; line_first h0 z end;
 assert { not (dir h0 z (z + i)) -> onl h0 z (z + i) -> h0[z + i] <> 10 -> z + i < gb };
after_body: assert { gd -> gb = eol h0 (z + i) /\ gb > z + i }; assert { not gd -> not (isend h0 z (z + i)) }; assert { not gd -> not (iselse h0 z (z + i)) }; assert { not gd -> not (isif h0 z (z + i)) }; assert { not gd -> not (dir h0 z (z + i)) };
 assert { dir h0 z (z + i) -> gb = eol h0 (z + i) /\ gb > z + i };
 if isdir h0 z pi then line_on h0 z pi gb;
 assert { not (dir h0 z (z + i)) -> gb = (gb at L1b) };
 assert { dir h0 z (z + i) -> #heap(z[])[z + i] = 32 /\ left h0 #heap(z[]) d z (z + i) };
 assert { exclude = exc (sk h0 d z (z + i + 1)) };
 assert { exclude > 0 -> 0 <= start <= i /\ dir h0 z (z + start) /\ h0[z + start] = 37 }; assert { exclude > 0 -> forall q. z + start < q <= z + i -> exc (sk h0 d z q) > 0 }; assert { exclude > 0 -> forall q. z + start < q <= z + i + 1 -> exc (sk h0 d z q) > 0 };
 assert { lefts h0 #heap(z[]) d z z (if exclude > 0 then min (z + i) (z + start + 1) else z + i) };
 assert { exclude = 0 -> left h0 #heap(z[]) d z (z + i) };
 assert { z + i + 1 <= e }; assert { lefts h0 #heap(z[]) d z z (if exclude > 0 then z + start + 1 else z + i + 1) };
 assert { exclude > 0 -> excl h0 #heap(z[]) z (z + start) (z + i) };
 assert { exclude > 0 -> start < i -> #heap(z[])[z + i] = (if h0[z + i] <> 10 /\ onl h0 z (z + i) then 32 else h0[z + i]) };
 excl_next h0 #heap(z[]) z (z + start) (z + i);
 assert { exclude > 0 -> excl h0 #heap(z[]) z (z + start) (z + i + 1) };
at continue: assert { not (dir h0 z (z + i)) };
loop 2
before: let ghost hb2 = #heap(z[]) in
inv j: start <= j <= i
inv new: forall q. z + start <= q < z + j -> #heap(z[])[q] = (if h0[q] = 10 then 10 else 32)
inv rest: forall q. q < z + start \/ q >= z + j -> #heap(z[])[q] = (#heap(z[]) at L2)[q]
after: line_on h0 z (z + start) (z + start + 1); lefts_close h0 hb2 #heap(z[]) d z (z + start) (z + i);
loop 3
before: assert { forall q. q >= z + i -> #heap(z[])[q] = h0[q] }; assert { isend h0 z (z + i) }; assert { exclude = exc (sk h0 d z (z + i + 1)) };
 assert { forall q. q < z \/ q >= e -> #heap(z[])[q] = h0[q] };
 assert { exclude > 0 -> exc (sk h0 d z (z + i + 1)) > 0 }; assert { exclude > 0 -> 0 <= start <= i /\ dir h0 z (z + start) /\ h0[z + start] = 37 }; assert { exclude > 0 -> forall q. z + start < q <= z + i -> exc (sk h0 d z q) > 0 };
 assert { exclude > 0 -> forall q. z + start < q <= z + i + 1 -> exc (sk h0 d z q) > 0 };
 assert { lefts h0 #heap(z[]) d z z (if exclude > 0 then min (z + i) (z + start + 1) else z + i) };
 assert { exclude > 0 -> excl h0 #heap(z[]) z (z + start) (z + i) };
inv j: i <= j /\ z + j <= eol h0 (z + i)
inv new: forall q. z + i <= q < z + j -> #heap(z[])[q] = 32
inv rest: forall q. q < z + i \/ q >= z + j -> #heap(z[])[q] = (#heap(z[]) at L3)[q]
body: assert { off z j = z + j }; assert { #heap(z[])[z + j] = h0[z + j] }; assert { h0[z + j] <> 0 /\ h0[z + j] <> 10 };
after: assert { z + j = eol h0 (z + i) }; gd <- true; gb <- z + j; assert { gb = eol h0 (z + i) /\ gb > z + i };
 assert { lefts h0 #heap(z[]) d z z (if exclude > 0 then min (z + i) (z + start + 1) else z + i) };
 assert { exclude > 0 -> excl h0 #heap(z[]) z (z + start) (z + i) };
loop 4
before: let ghost hb4 = #heap(z[]) in
inv j: start <= j <= i
inv new: forall q. z + start <= q < z + j -> #heap(z[])[q] = (if h0[q] = 10 then 10 else 32)
inv rest: forall q. q < z + start \/ q >= z + j -> #heap(z[])[q] = (#heap(z[]) at L4)[q]
after: line_on h0 z (z + start) (z + start + 1); lefts_close h0 hb4 #heap(z[]) d z (z + start) (z + i);
loop 5
before: assert { forall q. q >= z + i -> #heap(z[])[q] = h0[q] }; assert { iselse h0 z (z + i) }; assert { exclude = exc (sk h0 d z (z + i + 1)) };
 assert { forall q. q < z \/ q >= e -> #heap(z[])[q] = h0[q] };
 assert { exclude > 0 -> exc (sk h0 d z (z + i + 1)) > 0 }; assert { exclude > 0 -> 0 <= start <= i /\ dir h0 z (z + start) /\ h0[z + start] = 37 }; assert { exclude > 0 -> forall q. z + start < q <= z + i -> exc (sk h0 d z q) > 0 };
 assert { exclude > 0 -> forall q. z + start < q <= z + i + 1 -> exc (sk h0 d z q) > 0 };
 assert { lefts h0 #heap(z[]) d z z (if exclude > 0 then min (z + i) (z + start + 1) else z + i) };
 assert { exclude > 0 -> excl h0 #heap(z[]) z (z + start) (z + i) };
inv j: i <= j /\ z + j <= eol h0 (z + i)
inv new: forall q. z + i <= q < z + j -> #heap(z[])[q] = 32
inv rest: forall q. q < z + i \/ q >= z + j -> #heap(z[])[q] = (#heap(z[]) at L5)[q]
body: assert { off z j = z + j }; assert { #heap(z[])[z + j] = h0[z + j] }; assert { h0[z + j] <> 0 /\ h0[z + j] <> 10 };
after: assert { z + j = eol h0 (z + i) }; gd <- true; gb <- z + j; assert { gb = eol h0 (z + i) /\ gb > z + i };
 assert { lefts h0 #heap(z[]) d z z (if exclude > 0 then min (z + i) (z + start + 1) else z + i) };
 assert { exclude > 0 -> excl h0 #heap(z[]) z (z + start) (z + i) };
loop 6
before: assert { isif h0 z (z + i) }; assert { forall q. z + i <= q < cb h0 (z + i) -> not (spc h0[q]) /\ h0[q] <> 0 }; assert { h0[cb h0 (z + i)] = 32 /\ cb h0 (z + i) < e }; assert { cb h0 (z + i) <= eol h0 (z + i) };
inv j: i <= j /\ z + j <= cb h0 (z + i)
after: assert { z + j = cb h0 (z + i) };
loop 7
inv j: i <= j /\ cb h0 (z + i) <= z + j <= eol h0 (z + i)
after: assert { z + j = eol h0 (z + i) }; assert { h0[z + j] = #heap(z[])[z + j] };
loop 8
before: assert { forall q. q >= z + i -> #heap(z[])[q] = h0[q] }; assert { isif h0 z (z + i) }; assert { exclude = exc (sk h0 d z (z + i + 1)) };
 assert { forall q. q < z \/ q >= e -> #heap(z[])[q] = h0[q] };
 assert { exclude > 0 -> exc (sk h0 d z (z + i + 1)) > 0 }; assert { exclude > 0 -> 0 <= start <= i /\ dir h0 z (z + start) /\ h0[z + start] = 37 }; assert { exclude > 0 -> forall q. z + start < q <= z + i -> exc (sk h0 d z q) > 0 };
 assert { exclude > 0 -> forall q. z + start < q <= z + i + 1 -> exc (sk h0 d z q) > 0 };
 assert { lefts h0 #heap(z[]) d z z (if exclude > 0 then min (z + i) (z + start + 1) else z + i) };
 assert { exclude > 0 -> excl h0 #heap(z[]) z (z + start) (z + i) };
inv j: i <= j /\ z + j <= eol h0 (z + i)
inv new: forall q. z + i <= q < z + j -> #heap(z[])[q] = 32
inv rest: forall q. q < z + i \/ q >= z + j -> #heap(z[])[q] = (#heap(z[]) at L8)[q]
body: assert { off z j = z + j }; assert { #heap(z[])[z + j] = h0[z + j] }; assert { h0[z + j] <> 0 /\ h0[z + j] <> 10 };
after: assert { z + j = eol h0 (z + i) }; gd <- true; gb <- z + j; assert { gb = eol h0 (z + i) /\ gb > z + i };
 assert { lefts h0 #heap(z[]) d z z (if exclude > 0 then min (z + i) (z + start + 1) else z + i) };
 assert { exclude > 0 -> excl h0 #heap(z[]) z (z + start) (z + i) };
