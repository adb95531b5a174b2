== print_grammar_ebnf files=byacc/reader.c,byacc/main.c props=C13
singleton byacc_t:s_
opt emit
use emit.Emit
logic:
 (* where rule i, item k and the end of rule i's items are in the output *)
 val ref gi : map int int
 val ref gk : map int int
 val ref ge : map int int
requires flag: s_ebnf_flag <> 0
requires rules: s_nrules >= 3 /\ #s_rrhs[2] = 1 /\ forall i. 2 <= i < s_nrules -> 0 < #s_rrhs[i] < #s_rrhs[i + 1]
requires ordered: forall i j. 2 <= i < j <= s_nrules -> #s_rrhs[i] < #s_rrhs[j]
requires ends: forall i. 2 <= i < s_nrules -> #s_ritem[#s_rrhs[i + 1] - 1] < 0
requires items: forall i k. 2 <= i < s_nrules -> #s_rrhs[i] <= k < #s_rrhs[i + 1] - 1 -> #s_ritem[k] >= 0
ensures begin: gi[2] >= old txtn /\ gi[s_nrules] = txtn
ensures heads: forall j. 2 <= j < s_nrules -> ((#s_rlhs[j] <> #s_rlhs[j - 1] -> not (#heap(s_symbol_name[][])[#s_symbol_name[#s_rlhs[j]]] = 36) -> (j <> 2 -> txt[gi[j]] = St #s_symbol_name[#s_rlhs[j]]) /\ txt[gi[j] + 1] = w_produces) /\ (not (#s_rlhs[j] <> #s_rlhs[j - 1]) -> txt[gi[j]] = w_bar))
ensures first: forall j. 2 <= j < s_nrules -> (not (#s_ritem[#s_rrhs[j]] < 0) -> gk[#s_rrhs[j]] = gi[j] + (if #s_rlhs[j] <> #s_rlhs[j - 1] then (if #heap(s_symbol_name[][])[#s_symbol_name[#s_rlhs[j]]] = 36 then 0 else 2) else 1))
ensures ends: forall j. 2 <= j < s_nrules -> ge[j] = (if #s_ritem[#s_rrhs[j]] < 0 then gi[j] + (if #s_rlhs[j] <> #s_rlhs[j - 1] then (if #heap(s_symbol_name[][])[#s_symbol_name[#s_rlhs[j]]] = 36 then 0 else 2) else 1) + 0 else gk[#s_rrhs[j + 1] - 1])
ensures next: forall j. 2 <= j < s_nrules -> gi[j + 1] = ge[j] + 0
ensures steps: forall j k. 2 <= j < s_nrules -> #s_rrhs[j] <= k < #s_rrhs[j + 1] - 1 -> gk[k + 1] = gk[k] + (if #heap(s_symbol_name[][])[#s_symbol_name[#s_rlhs[j]]] = 36 \/ #heap(s_symbol_name[][])[#s_symbol_name[#s_ritem[k]]] = 36 then 0 else 1)
ensures symbols: forall j k. 2 <= j < s_nrules -> #s_rrhs[j] <= k < #s_rrhs[j + 1] - 1 -> (not (#heap(s_symbol_name[][])[#s_symbol_name[#s_rlhs[j]]] = 36) -> not (#heap(s_symbol_name[][])[#s_symbol_name[#s_ritem[k]]] = 36) -> txt[gk[k]] = St #s_symbol_name[#s_ritem[k]])
ghost let ref ho = txt in
ghost let ref hk = gk in
ghost let ref hg = gi in
entry: gi <- mset gi 2 txtn;
loop 1
inv grows: txtn >= old txtn
inv i: 2 <= i <= s_nrules /\ k = #s_rrhs[i] /\ gi[i] = txtn
inv begin: gi[2] = (txtn at L1)
inv places: forall j. 2 <= j < i -> gi[j] + (if #s_rlhs[j] <> #s_rlhs[j - 1] then (if #heap(s_symbol_name[][])[#s_symbol_name[#s_rlhs[j]]] = 36 then 0 else 2) else 1) <= ge[j] /\ gi[j + 1] <= txtn
inv heads: forall j. 2 <= j < i -> ((#s_rlhs[j] <> #s_rlhs[j - 1] -> not (#heap(s_symbol_name[][])[#s_symbol_name[#s_rlhs[j]]] = 36) -> (j <> 2 -> txt[gi[j]] = St #s_symbol_name[#s_rlhs[j]]) /\ txt[gi[j] + 1] = w_produces) /\ (not (#s_rlhs[j] <> #s_rlhs[j - 1]) -> txt[gi[j]] = w_bar))
inv first: forall j. 2 <= j < i -> (not (#s_ritem[#s_rrhs[j]] < 0) -> gk[#s_rrhs[j]] = gi[j] + (if #s_rlhs[j] <> #s_rlhs[j - 1] then (if #heap(s_symbol_name[][])[#s_symbol_name[#s_rlhs[j]]] = 36 then 0 else 2) else 1))
inv ends: forall j. 2 <= j < i -> ge[j] = (if #s_ritem[#s_rrhs[j]] < 0 then gi[j] + (if #s_rlhs[j] <> #s_rlhs[j - 1] then (if #heap(s_symbol_name[][])[#s_symbol_name[#s_rlhs[j]]] = 36 then 0 else 2) else 1) + 0 else gk[#s_rrhs[j + 1] - 1])
inv next: forall j. 2 <= j < i -> gi[j + 1] = ge[j] + 0
inv item-places: forall j k. 2 <= j < i -> #s_rrhs[j] <= k < #s_rrhs[j + 1] - 1 -> gk[k + 1] <= txtn
inv steps: forall j k. 2 <= j < i -> #s_rrhs[j] <= k < #s_rrhs[j + 1] - 1 -> gk[k + 1] = gk[k] + (if #heap(s_symbol_name[][])[#s_symbol_name[#s_rlhs[j]]] = 36 \/ #heap(s_symbol_name[][])[#s_symbol_name[#s_ritem[k]]] = 36 then 0 else 1)
inv symbols: forall j k. 2 <= j < i -> #s_rrhs[j] <= k < #s_rrhs[j + 1] - 1 -> (not (#heap(s_symbol_name[][])[#s_symbol_name[#s_rlhs[j]]] = 36) -> not (#heap(s_symbol_name[][])[#s_symbol_name[#s_ritem[k]]] = 36) -> txt[gk[k]] = St #s_symbol_name[#s_ritem[k]])
body: ho <- txt; hk <- gk; hg <- gi;
after_body: ge <- mset ge i (txtn - 0);
 assert { (forall p. p < gi[i] -> txt[p] = ho[p]) /\ (forall m. m < #s_rrhs[i] -> gk[m] = hk[m]) };
 assert { ((#s_rlhs[i] <> #s_rlhs[i - 1] -> not (#heap(s_symbol_name[][])[#s_symbol_name[#s_rlhs[i]]] = 36) -> (i <> 2 -> txt[gi[i]] = St #s_symbol_name[#s_rlhs[i]]) /\ txt[gi[i] + 1] = w_produces) /\ (not (#s_rlhs[i] <> #s_rlhs[i - 1]) -> txt[gi[i]] = w_bar)) };
 gi <- mset gi (i + 1) txtn;
loop 2
inv grows: txtn >= old txtn
before: assert { k = #s_rrhs[i] /\ txtn = gi[i] + (if #s_rlhs[i] <> #s_rlhs[i - 1] then (if #heap(s_symbol_name[][])[#s_symbol_name[#s_rlhs[i]]] = 36 then 0 else 2) else 1) };
 gk <- mset gk k txtn;
inv k: #s_rrhs[i] <= k < #s_rrhs[i + 1] /\ gk[k] = txtn /\ gk[#s_rrhs[i]] = gi[i] + (if #s_rlhs[i] <> #s_rlhs[i - 1] then (if #heap(s_symbol_name[][])[#s_symbol_name[#s_rlhs[i]]] = 36 then 0 else 2) else 1) /\ txtn >= gi[i] + (if #s_rlhs[i] <> #s_rlhs[i - 1] then (if #heap(s_symbol_name[][])[#s_symbol_name[#s_rlhs[i]]] = 36 then 0 else 2) else 1)
inv head: ((#s_rlhs[i] <> #s_rlhs[i - 1] -> not (#heap(s_symbol_name[][])[#s_symbol_name[#s_rlhs[i]]] = 36) -> (i <> 2 -> txt[gi[i]] = St #s_symbol_name[#s_rlhs[i]]) /\ txt[gi[i] + 1] = w_produces) /\ (not (#s_rlhs[i] <> #s_rlhs[i - 1]) -> txt[gi[i]] = w_bar))
inv before: forall p. p < gi[i] -> txt[p] = ho[p]
inv items-before: forall m. m < #s_rrhs[i] -> gk[m] = hk[m]
inv own-places: forall m. #s_rrhs[i] <= m < k -> gk[m + 1] <= txtn
inv own-steps: forall m. #s_rrhs[i] <= m < k -> gk[m + 1] = gk[m] + (if #heap(s_symbol_name[][])[#s_symbol_name[#s_rlhs[i]]] = 36 \/ #heap(s_symbol_name[][])[#s_symbol_name[#s_ritem[m]]] = 36 then 0 else 1)
inv own-symbols: forall m. #s_rrhs[i] <= m < k -> (not (#heap(s_symbol_name[][])[#s_symbol_name[#s_rlhs[i]]] = 36) -> not (#heap(s_symbol_name[][])[#s_symbol_name[#s_ritem[m]]] = 36) -> txt[gk[m]] = St #s_symbol_name[#s_ritem[m]])
after_body: gk <- mset gk k txtn;
after: assert { k = #s_rrhs[i + 1] - 1 };

== print_grammar_naked files=byacc/reader.c,byacc/main.c props=C13
singleton byacc_t:s_
opt emit
use emit.Emit
logic:
 (* where rule i, item k and the end of rule i's items are in the output *)
 val ref gi : map int int
 val ref gk : map int int
 val ref ge : map int int
requires flag: s_naked_flag <> 0
requires rules: s_nrules >= 3 /\ #s_rrhs[2] = 1 /\ forall i. 2 <= i < s_nrules -> 0 < #s_rrhs[i] < #s_rrhs[i + 1]
requires ordered: forall i j. 2 <= i < j <= s_nrules -> #s_rrhs[i] < #s_rrhs[j]
requires ends: forall i. 2 <= i < s_nrules -> #s_ritem[#s_rrhs[i + 1] - 1] < 0
requires items: forall i k. 2 <= i < s_nrules -> #s_rrhs[i] <= k < #s_rrhs[i + 1] - 1 -> #s_ritem[k] >= 0
ensures begin: gi[2] >= old txtn /\ gi[s_nrules] + 1 = txtn /\ txt[gi[s_nrules]] = w_semi
ensures heads: forall j. 2 <= j < s_nrules -> ((#s_rlhs[j] <> #s_rlhs[j - 1] -> not (#heap(s_symbol_name[][])[#s_symbol_name[#s_rlhs[j]]] = 36) -> (j > 3 -> txt[gi[j]] = w_semi /\ txt[gi[j] + 1] = St #s_symbol_name[#s_rlhs[j]] /\ txt[gi[j] + 2] = w_colon) /\ (j = 3 -> txt[gi[j]] = St #s_symbol_name[#s_rlhs[j]] /\ txt[gi[j] + 1] = w_colon) /\ (j = 2 -> txt[gi[j] + 1] = w_colon)) /\ (not (#s_rlhs[j] <> #s_rlhs[j - 1]) -> txt[gi[j]] = w_bar))
ensures first: forall j. 2 <= j < s_nrules -> (not (#s_ritem[#s_rrhs[j]] < 0) -> gk[#s_rrhs[j]] = gi[j] + (if #s_rlhs[j] <> #s_rlhs[j - 1] then (if #heap(s_symbol_name[][])[#s_symbol_name[#s_rlhs[j]]] = 36 then 0 else if j > 3 then 3 else 2) else 1))
ensures ends: forall j. 2 <= j < s_nrules -> ge[j] = (if #s_ritem[#s_rrhs[j]] < 0 then gi[j] + (if #s_rlhs[j] <> #s_rlhs[j - 1] then (if #heap(s_symbol_name[][])[#s_symbol_name[#s_rlhs[j]]] = 36 then 0 else if j > 3 then 3 else 2) else 1) + 0 else gk[#s_rrhs[j + 1] - 1])
ensures next: forall j. 2 <= j < s_nrules -> gi[j + 1] = ge[j] + (if #heap(s_symbol_name[][])[#s_symbol_name[#s_rlhs[j]]] = 36 then 0 else if #s_rprec_bucket[j] = 0 then 0 else 2)
ensures tails: forall j. 2 <= j < s_nrules -> (not (#heap(s_symbol_name[][])[#s_symbol_name[#s_rlhs[j]]] = 36) -> #s_rprec_bucket[j] <> 0 -> txt[ge[j]] = w_prec /\ txt[ge[j] + 1] = St #heap(s_rprec_bucket[]->name)[#s_rprec_bucket[j]])
ensures steps: forall j k. 2 <= j < s_nrules -> #s_rrhs[j] <= k < #s_rrhs[j + 1] - 1 -> gk[k + 1] = gk[k] + (if #heap(s_symbol_name[][])[#s_symbol_name[#s_rlhs[j]]] = 36 \/ #heap(s_symbol_name[][])[#s_symbol_name[#s_ritem[k]]] = 36 then 0 else 1)
ensures symbols: forall j k. 2 <= j < s_nrules -> #s_rrhs[j] <= k < #s_rrhs[j + 1] - 1 -> (not (#heap(s_symbol_name[][])[#s_symbol_name[#s_rlhs[j]]] = 36) -> not (#heap(s_symbol_name[][])[#s_symbol_name[#s_ritem[k]]] = 36) -> txt[gk[k]] = St #s_symbol_name[#s_ritem[k]])
ghost let ref ho = txt in
ghost let ref hk = gk in
ghost let ref hg = gi in
loop 1
inv grows: txtn >= old txtn
loop 2
inv grows: txtn >= old txtn
loop 3
inv grows: txtn >= old txtn
loop 4
before: gi <- mset gi 2 txtn;
inv grows: txtn >= old txtn
inv i: 2 <= i <= s_nrules /\ k = #s_rrhs[i] /\ gi[i] = txtn
inv begin: gi[2] = (txtn at L4)
inv places: forall j. 2 <= j < i -> gi[j] + (if #s_rlhs[j] <> #s_rlhs[j - 1] then (if #heap(s_symbol_name[][])[#s_symbol_name[#s_rlhs[j]]] = 36 then 0 else if j > 3 then 3 else 2) else 1) <= ge[j] /\ gi[j + 1] <= txtn
inv heads: forall j. 2 <= j < i -> ((#s_rlhs[j] <> #s_rlhs[j - 1] -> not (#heap(s_symbol_name[][])[#s_symbol_name[#s_rlhs[j]]] = 36) -> (j > 3 -> txt[gi[j]] = w_semi /\ txt[gi[j] + 1] = St #s_symbol_name[#s_rlhs[j]] /\ txt[gi[j] + 2] = w_colon) /\ (j = 3 -> txt[gi[j]] = St #s_symbol_name[#s_rlhs[j]] /\ txt[gi[j] + 1] = w_colon) /\ (j = 2 -> txt[gi[j] + 1] = w_colon)) /\ (not (#s_rlhs[j] <> #s_rlhs[j - 1]) -> txt[gi[j]] = w_bar))
inv first: forall j. 2 <= j < i -> (not (#s_ritem[#s_rrhs[j]] < 0) -> gk[#s_rrhs[j]] = gi[j] + (if #s_rlhs[j] <> #s_rlhs[j - 1] then (if #heap(s_symbol_name[][])[#s_symbol_name[#s_rlhs[j]]] = 36 then 0 else if j > 3 then 3 else 2) else 1))
inv ends: forall j. 2 <= j < i -> ge[j] = (if #s_ritem[#s_rrhs[j]] < 0 then gi[j] + (if #s_rlhs[j] <> #s_rlhs[j - 1] then (if #heap(s_symbol_name[][])[#s_symbol_name[#s_rlhs[j]]] = 36 then 0 else if j > 3 then 3 else 2) else 1) + 0 else gk[#s_rrhs[j + 1] - 1])
inv next: forall j. 2 <= j < i -> gi[j + 1] = ge[j] + (if #heap(s_symbol_name[][])[#s_symbol_name[#s_rlhs[j]]] = 36 then 0 else if #s_rprec_bucket[j] = 0 then 0 else 2)
inv tails: forall j. 2 <= j < i -> (not (#heap(s_symbol_name[][])[#s_symbol_name[#s_rlhs[j]]] = 36) -> #s_rprec_bucket[j] <> 0 -> txt[ge[j]] = w_prec /\ txt[ge[j] + 1] = St #heap(s_rprec_bucket[]->name)[#s_rprec_bucket[j]])
inv item-places: forall j k. 2 <= j < i -> #s_rrhs[j] <= k < #s_rrhs[j + 1] - 1 -> gk[k + 1] <= txtn
inv steps: forall j k. 2 <= j < i -> #s_rrhs[j] <= k < #s_rrhs[j + 1] - 1 -> gk[k + 1] = gk[k] + (if #heap(s_symbol_name[][])[#s_symbol_name[#s_rlhs[j]]] = 36 \/ #heap(s_symbol_name[][])[#s_symbol_name[#s_ritem[k]]] = 36 then 0 else 1)
inv symbols: forall j k. 2 <= j < i -> #s_rrhs[j] <= k < #s_rrhs[j + 1] - 1 -> (not (#heap(s_symbol_name[][])[#s_symbol_name[#s_rlhs[j]]] = 36) -> not (#heap(s_symbol_name[][])[#s_symbol_name[#s_ritem[k]]] = 36) -> txt[gk[k]] = St #s_symbol_name[#s_ritem[k]])
body: ho <- txt; hk <- gk; hg <- gi;
after_body: ge <- mset ge i (txtn - (if #heap(s_symbol_name[][])[#s_symbol_name[#s_rlhs[i]]] = 36 then 0 else if #s_rprec_bucket[i] = 0 then 0 else 2));
 assert { (forall p. p < gi[i] -> txt[p] = ho[p]) /\ (forall m. m < #s_rrhs[i] -> gk[m] = hk[m]) };
 assert { ((#s_rlhs[i] <> #s_rlhs[i - 1] -> not (#heap(s_symbol_name[][])[#s_symbol_name[#s_rlhs[i]]] = 36) -> (i > 3 -> txt[gi[i]] = w_semi /\ txt[gi[i] + 1] = St #s_symbol_name[#s_rlhs[i]] /\ txt[gi[i] + 2] = w_colon) /\ (i = 3 -> txt[gi[i]] = St #s_symbol_name[#s_rlhs[i]] /\ txt[gi[i] + 1] = w_colon) /\ (i = 2 -> txt[gi[i] + 1] = w_colon)) /\ (not (#s_rlhs[i] <> #s_rlhs[i - 1]) -> txt[gi[i]] = w_bar)) };
 assert { forall j. 2 <= j < i -> #s_rrhs[j + 1] - 1 < #s_rrhs[i] };
 assert { forall j. 2 <= j < i -> gk[#s_rrhs[j + 1] - 1] = hk[#s_rrhs[j + 1] - 1] };
 assert { forall j. 2 <= j < i -> gi[j] + (if #s_rlhs[j] <> #s_rlhs[j - 1] then (if #heap(s_symbol_name[][])[#s_symbol_name[#s_rlhs[j]]] = 36 then 0 else if j > 3 then 3 else 2) else 1) <= ge[j] /\ gi[j + 1] <= gi[i] };
 assert { forall j. 2 <= j < i -> ((#s_rlhs[j] <> #s_rlhs[j - 1] -> not (#heap(s_symbol_name[][])[#s_symbol_name[#s_rlhs[j]]] = 36) -> (j > 3 -> txt[gi[j]] = w_semi /\ txt[gi[j] + 1] = St #s_symbol_name[#s_rlhs[j]] /\ txt[gi[j] + 2] = w_colon) /\ (j = 3 -> txt[gi[j]] = St #s_symbol_name[#s_rlhs[j]] /\ txt[gi[j] + 1] = w_colon) /\ (j = 2 -> txt[gi[j] + 1] = w_colon)) /\ (not (#s_rlhs[j] <> #s_rlhs[j - 1]) -> txt[gi[j]] = w_bar)) };
 assert { forall j. 2 <= j < i -> (not (#s_ritem[#s_rrhs[j]] < 0) -> gk[#s_rrhs[j]] = gi[j] + (if #s_rlhs[j] <> #s_rlhs[j - 1] then (if #heap(s_symbol_name[][])[#s_symbol_name[#s_rlhs[j]]] = 36 then 0 else if j > 3 then 3 else 2) else 1)) };
 assert { forall j. 2 <= j < i -> ge[j] = (if #s_ritem[#s_rrhs[j]] < 0 then gi[j] + (if #s_rlhs[j] <> #s_rlhs[j - 1] then (if #heap(s_symbol_name[][])[#s_symbol_name[#s_rlhs[j]]] = 36 then 0 else if j > 3 then 3 else 2) else 1) + 0 else gk[#s_rrhs[j + 1] - 1]) };
 assert { forall j. 2 <= j < i -> gi[j + 1] = ge[j] + (if #heap(s_symbol_name[][])[#s_symbol_name[#s_rlhs[j]]] = 36 then 0 else if #s_rprec_bucket[j] = 0 then 0 else 2) };
 assert { forall j. 2 <= j < i -> (not (#heap(s_symbol_name[][])[#s_symbol_name[#s_rlhs[j]]] = 36) -> #s_rprec_bucket[j] <> 0 -> txt[ge[j]] = w_prec /\ txt[ge[j] + 1] = St #heap(s_rprec_bucket[]->name)[#s_rprec_bucket[j]]) };
 assert { forall j k. 2 <= j < i -> #s_rrhs[j] <= k < #s_rrhs[j + 1] - 1 -> gk[k + 1] = gk[k] + (if #heap(s_symbol_name[][])[#s_symbol_name[#s_rlhs[j]]] = 36 \/ #heap(s_symbol_name[][])[#s_symbol_name[#s_ritem[k]]] = 36 then 0 else 1) };
 assert { forall j k. 2 <= j < i -> #s_rrhs[j] <= k < #s_rrhs[j + 1] - 1 -> (not (#heap(s_symbol_name[][])[#s_symbol_name[#s_rlhs[j]]] = 36) -> not (#heap(s_symbol_name[][])[#s_symbol_name[#s_ritem[k]]] = 36) -> txt[gk[k]] = St #s_symbol_name[#s_ritem[k]]) };
 assert { (not (#heap(s_symbol_name[][])[#s_symbol_name[#s_rlhs[i]]] = 36) -> #s_rprec_bucket[i] <> 0 -> txt[ge[i]] = w_prec /\ txt[ge[i] + 1] = St #heap(s_rprec_bucket[]->name)[#s_rprec_bucket[i]]) };
 assert { ge[i] = (if #s_ritem[#s_rrhs[i]] < 0 then gi[i] + (if #s_rlhs[i] <> #s_rlhs[i - 1] then (if #heap(s_symbol_name[][])[#s_symbol_name[#s_rlhs[i]]] = 36 then 0 else if i > 3 then 3 else 2) else 1) + 0 else gk[#s_rrhs[i + 1] - 1]) /\ ge[i] >= gi[i] + (if #s_rlhs[i] <> #s_rlhs[i - 1] then (if #heap(s_symbol_name[][])[#s_symbol_name[#s_rlhs[i]]] = 36 then 0 else if i > 3 then 3 else 2) else 1) };
 gi <- mset gi (i + 1) txtn;
 assert { forall j. 2 <= j <= i -> gi[j] = hg[j] };
loop 5
inv grows: txtn >= old txtn
before: assert { k = #s_rrhs[i] /\ txtn = gi[i] + (if #s_rlhs[i] <> #s_rlhs[i - 1] then (if #heap(s_symbol_name[][])[#s_symbol_name[#s_rlhs[i]]] = 36 then 0 else if i > 3 then 3 else 2) else 1) };
 gk <- mset gk k txtn;
inv k: #s_rrhs[i] <= k < #s_rrhs[i + 1] /\ gk[k] = txtn /\ gk[#s_rrhs[i]] = gi[i] + (if #s_rlhs[i] <> #s_rlhs[i - 1] then (if #heap(s_symbol_name[][])[#s_symbol_name[#s_rlhs[i]]] = 36 then 0 else if i > 3 then 3 else 2) else 1) /\ txtn >= gi[i] + (if #s_rlhs[i] <> #s_rlhs[i - 1] then (if #heap(s_symbol_name[][])[#s_symbol_name[#s_rlhs[i]]] = 36 then 0 else if i > 3 then 3 else 2) else 1)
inv head: ((#s_rlhs[i] <> #s_rlhs[i - 1] -> not (#heap(s_symbol_name[][])[#s_symbol_name[#s_rlhs[i]]] = 36) -> (i > 3 -> txt[gi[i]] = w_semi /\ txt[gi[i] + 1] = St #s_symbol_name[#s_rlhs[i]] /\ txt[gi[i] + 2] = w_colon) /\ (i = 3 -> txt[gi[i]] = St #s_symbol_name[#s_rlhs[i]] /\ txt[gi[i] + 1] = w_colon) /\ (i = 2 -> txt[gi[i] + 1] = w_colon)) /\ (not (#s_rlhs[i] <> #s_rlhs[i - 1]) -> txt[gi[i]] = w_bar))
inv before: forall p. p < gi[i] -> txt[p] = ho[p]
inv items-before: forall m. m < #s_rrhs[i] -> gk[m] = hk[m]
inv own-places: forall m. #s_rrhs[i] <= m < k -> gk[m + 1] <= txtn
inv own-steps: forall m. #s_rrhs[i] <= m < k -> gk[m + 1] = gk[m] + (if #heap(s_symbol_name[][])[#s_symbol_name[#s_rlhs[i]]] = 36 \/ #heap(s_symbol_name[][])[#s_symbol_name[#s_ritem[m]]] = 36 then 0 else 1)
inv own-symbols: forall m. #s_rrhs[i] <= m < k -> (not (#heap(s_symbol_name[][])[#s_symbol_name[#s_rlhs[i]]] = 36) -> not (#heap(s_symbol_name[][])[#s_symbol_name[#s_ritem[m]]] = 36) -> txt[gk[m]] = St #s_symbol_name[#s_ritem[m]])
after_body: gk <- mset gk k txtn;
after: assert { k = #s_rrhs[i + 1] - 1 };

== print_grammar_nakedQ files=byacc/reader.c,byacc/main.c props=C13
singleton byacc_t:s_
opt emit
use emit.Emit
logic:
 (* where rule i, item k and the end of rule i's items are in the output *)
 val ref gi : map int int
 val ref gk : map int int
 val ref ge : map int int
requires flag: s_nakedq_flag <> 0
requires rules: s_nrules >= 3 /\ #s_rrhs[2] = 1 /\ forall i. 2 <= i < s_nrules -> 0 < #s_rrhs[i] < #s_rrhs[i + 1]
requires ordered: forall i j. 2 <= i < j <= s_nrules -> #s_rrhs[i] < #s_rrhs[j]
requires ends: forall i. 2 <= i < s_nrules -> #s_ritem[#s_rrhs[i + 1] - 1] < 0
requires items: forall i k. 2 <= i < s_nrules -> #s_rrhs[i] <= k < #s_rrhs[i + 1] - 1 -> #s_ritem[k] >= 0
ensures begin: gi[2] >= old txtn /\ gi[s_nrules] + 1 = txtn /\ txt[gi[s_nrules]] = w_semi
ensures heads: forall j. 2 <= j < s_nrules -> ((#s_rlhs[j] <> #s_rlhs[j - 1] -> not (#heap(s_symbol_name[][])[#s_symbol_name[#s_rlhs[j]]] = 36) -> (j > 3 -> txt[gi[j]] = w_semi /\ txt[gi[j] + 1] = St #s_symbol_name[#s_rlhs[j]] /\ txt[gi[j] + 2] = w_colon) /\ (j = 3 -> txt[gi[j]] = St #s_symbol_name[#s_rlhs[j]] /\ txt[gi[j] + 1] = w_colon) /\ (j = 2 -> txt[gi[j] + 1] = w_colon)) /\ (not (#s_rlhs[j] <> #s_rlhs[j - 1]) -> txt[gi[j]] = w_bar))
ensures first: forall j. 2 <= j < s_nrules -> (not (#s_ritem[#s_rrhs[j]] < 0) -> gk[#s_rrhs[j]] = gi[j] + (if #s_rlhs[j] <> #s_rlhs[j - 1] then (if #heap(s_symbol_name[][])[#s_symbol_name[#s_rlhs[j]]] = 36 then 0 else if j > 3 then 3 else 2) else 1))
ensures ends: forall j. 2 <= j < s_nrules -> ge[j] = (if #s_ritem[#s_rrhs[j]] < 0 then gi[j] + (if #s_rlhs[j] <> #s_rlhs[j - 1] then (if #heap(s_symbol_name[][])[#s_symbol_name[#s_rlhs[j]]] = 36 then 0 else if j > 3 then 3 else 2) else 1) + 0 else gk[#s_rrhs[j + 1] - 1])
ensures next: forall j. 2 <= j < s_nrules -> gi[j + 1] = ge[j] + (if #heap(s_symbol_name[][])[#s_symbol_name[#s_rlhs[j]]] = 36 then 0 else if #s_rprec_bucket[j] = 0 then 0 else 4)
ensures tails: forall j. 2 <= j < s_nrules -> (not (#heap(s_symbol_name[][])[#s_symbol_name[#s_rlhs[j]]] = 36) -> #s_rprec_bucket[j] <> 0 -> txt[ge[j]] = w_prec /\ txt[ge[j] + 1] = w_lt /\ txt[ge[j] + 2] = St #heap(s_rprec_bucket[]->name)[#s_rprec_bucket[j]])
ensures steps: forall j k. 2 <= j < s_nrules -> #s_rrhs[j] <= k < #s_rrhs[j + 1] - 1 -> gk[k + 1] = gk[k] + (if #heap(s_symbol_name[][])[#s_symbol_name[#s_rlhs[j]]] = 36 \/ #heap(s_symbol_name[][])[#s_symbol_name[#s_ritem[k]]] = 36 then 0 else if (#s_ritem[k] < s_ntokens /\ #heap(s_symbol_name[][])[#s_symbol_name[#s_ritem[k]]] <> 34 /\ #heap(s_symbol_name[][])[#s_symbol_name[#s_ritem[k]]] <> 39) then 3 else 1)
ensures symbols: forall j k. 2 <= j < s_nrules -> #s_rrhs[j] <= k < #s_rrhs[j + 1] - 1 -> (not (#heap(s_symbol_name[][])[#s_symbol_name[#s_rlhs[j]]] = 36) -> not (#heap(s_symbol_name[][])[#s_symbol_name[#s_ritem[k]]] = 36) -> if (#s_ritem[k] < s_ntokens /\ #heap(s_symbol_name[][])[#s_symbol_name[#s_ritem[k]]] <> 34 /\ #heap(s_symbol_name[][])[#s_symbol_name[#s_ritem[k]]] <> 39) then txt[gk[k]] = w_lt /\ txt[gk[k] + 1] = St #s_symbol_name[#s_ritem[k]] /\ txt[gk[k] + 2] = w_gt else txt[gk[k]] = St #s_symbol_name[#s_ritem[k]])
ghost let ref ho = txt in
ghost let ref hk = gk in
ghost let ref hg = gi in
loop 1
inv grows: txtn >= old txtn
loop 2
inv grows: txtn >= old txtn
loop 3
inv grows: txtn >= old txtn
loop 4
before: gi <- mset gi 2 txtn;
inv grows: txtn >= old txtn
inv i: 2 <= i <= s_nrules /\ k = #s_rrhs[i] /\ gi[i] = txtn
inv begin: gi[2] = (txtn at L4)
inv places: forall j. 2 <= j < i -> gi[j] + (if #s_rlhs[j] <> #s_rlhs[j - 1] then (if #heap(s_symbol_name[][])[#s_symbol_name[#s_rlhs[j]]] = 36 then 0 else if j > 3 then 3 else 2) else 1) <= ge[j] /\ gi[j + 1] <= txtn
inv heads: forall j. 2 <= j < i -> ((#s_rlhs[j] <> #s_rlhs[j - 1] -> not (#heap(s_symbol_name[][])[#s_symbol_name[#s_rlhs[j]]] = 36) -> (j > 3 -> txt[gi[j]] = w_semi /\ txt[gi[j] + 1] = St #s_symbol_name[#s_rlhs[j]] /\ txt[gi[j] + 2] = w_colon) /\ (j = 3 -> txt[gi[j]] = St #s_symbol_name[#s_rlhs[j]] /\ txt[gi[j] + 1] = w_colon) /\ (j = 2 -> txt[gi[j] + 1] = w_colon)) /\ (not (#s_rlhs[j] <> #s_rlhs[j - 1]) -> txt[gi[j]] = w_bar))
inv first: forall j. 2 <= j < i -> (not (#s_ritem[#s_rrhs[j]] < 0) -> gk[#s_rrhs[j]] = gi[j] + (if #s_rlhs[j] <> #s_rlhs[j - 1] then (if #heap(s_symbol_name[][])[#s_symbol_name[#s_rlhs[j]]] = 36 then 0 else if j > 3 then 3 else 2) else 1))
inv ends: forall j. 2 <= j < i -> ge[j] = (if #s_ritem[#s_rrhs[j]] < 0 then gi[j] + (if #s_rlhs[j] <> #s_rlhs[j - 1] then (if #heap(s_symbol_name[][])[#s_symbol_name[#s_rlhs[j]]] = 36 then 0 else if j > 3 then 3 else 2) else 1) + 0 else gk[#s_rrhs[j + 1] - 1])
inv next: forall j. 2 <= j < i -> gi[j + 1] = ge[j] + (if #heap(s_symbol_name[][])[#s_symbol_name[#s_rlhs[j]]] = 36 then 0 else if #s_rprec_bucket[j] = 0 then 0 else 4)
inv tails: forall j. 2 <= j < i -> (not (#heap(s_symbol_name[][])[#s_symbol_name[#s_rlhs[j]]] = 36) -> #s_rprec_bucket[j] <> 0 -> txt[ge[j]] = w_prec /\ txt[ge[j] + 1] = w_lt /\ txt[ge[j] + 2] = St #heap(s_rprec_bucket[]->name)[#s_rprec_bucket[j]])
inv item-places: forall j k. 2 <= j < i -> #s_rrhs[j] <= k < #s_rrhs[j + 1] - 1 -> gk[k + 1] <= txtn
inv steps: forall j k. 2 <= j < i -> #s_rrhs[j] <= k < #s_rrhs[j + 1] - 1 -> gk[k + 1] = gk[k] + (if #heap(s_symbol_name[][])[#s_symbol_name[#s_rlhs[j]]] = 36 \/ #heap(s_symbol_name[][])[#s_symbol_name[#s_ritem[k]]] = 36 then 0 else if (#s_ritem[k] < s_ntokens /\ #heap(s_symbol_name[][])[#s_symbol_name[#s_ritem[k]]] <> 34 /\ #heap(s_symbol_name[][])[#s_symbol_name[#s_ritem[k]]] <> 39) then 3 else 1)
inv symbols: forall j k. 2 <= j < i -> #s_rrhs[j] <= k < #s_rrhs[j + 1] - 1 -> (not (#heap(s_symbol_name[][])[#s_symbol_name[#s_rlhs[j]]] = 36) -> not (#heap(s_symbol_name[][])[#s_symbol_name[#s_ritem[k]]] = 36) -> if (#s_ritem[k] < s_ntokens /\ #heap(s_symbol_name[][])[#s_symbol_name[#s_ritem[k]]] <> 34 /\ #heap(s_symbol_name[][])[#s_symbol_name[#s_ritem[k]]] <> 39) then txt[gk[k]] = w_lt /\ txt[gk[k] + 1] = St #s_symbol_name[#s_ritem[k]] /\ txt[gk[k] + 2] = w_gt else txt[gk[k]] = St #s_symbol_name[#s_ritem[k]])
body: ho <- txt; hk <- gk; hg <- gi;
after_body: ge <- mset ge i (txtn - (if #heap(s_symbol_name[][])[#s_symbol_name[#s_rlhs[i]]] = 36 then 0 else if #s_rprec_bucket[i] = 0 then 0 else 4));
 assert { (forall p. p < gi[i] -> txt[p] = ho[p]) /\ (forall m. m < #s_rrhs[i] -> gk[m] = hk[m]) };
 assert { ((#s_rlhs[i] <> #s_rlhs[i - 1] -> not (#heap(s_symbol_name[][])[#s_symbol_name[#s_rlhs[i]]] = 36) -> (i > 3 -> txt[gi[i]] = w_semi /\ txt[gi[i] + 1] = St #s_symbol_name[#s_rlhs[i]] /\ txt[gi[i] + 2] = w_colon) /\ (i = 3 -> txt[gi[i]] = St #s_symbol_name[#s_rlhs[i]] /\ txt[gi[i] + 1] = w_colon) /\ (i = 2 -> txt[gi[i] + 1] = w_colon)) /\ (not (#s_rlhs[i] <> #s_rlhs[i - 1]) -> txt[gi[i]] = w_bar)) };
 assert { forall j. 2 <= j < i -> #s_rrhs[j + 1] - 1 < #s_rrhs[i] };
 assert { forall j. 2 <= j < i -> gk[#s_rrhs[j + 1] - 1] = hk[#s_rrhs[j + 1] - 1] };
 assert { forall j. 2 <= j < i -> gi[j] + (if #s_rlhs[j] <> #s_rlhs[j - 1] then (if #heap(s_symbol_name[][])[#s_symbol_name[#s_rlhs[j]]] = 36 then 0 else if j > 3 then 3 else 2) else 1) <= ge[j] /\ gi[j + 1] <= gi[i] };
 assert { forall j. 2 <= j < i -> ((#s_rlhs[j] <> #s_rlhs[j - 1] -> not (#heap(s_symbol_name[][])[#s_symbol_name[#s_rlhs[j]]] = 36) -> (j > 3 -> txt[gi[j]] = w_semi /\ txt[gi[j] + 1] = St #s_symbol_name[#s_rlhs[j]] /\ txt[gi[j] + 2] = w_colon) /\ (j = 3 -> txt[gi[j]] = St #s_symbol_name[#s_rlhs[j]] /\ txt[gi[j] + 1] = w_colon) /\ (j = 2 -> txt[gi[j] + 1] = w_colon)) /\ (not (#s_rlhs[j] <> #s_rlhs[j - 1]) -> txt[gi[j]] = w_bar)) };
 assert { forall j. 2 <= j < i -> (not (#s_ritem[#s_rrhs[j]] < 0) -> gk[#s_rrhs[j]] = gi[j] + (if #s_rlhs[j] <> #s_rlhs[j - 1] then (if #heap(s_symbol_name[][])[#s_symbol_name[#s_rlhs[j]]] = 36 then 0 else if j > 3 then 3 else 2) else 1)) };
 assert { forall j. 2 <= j < i -> ge[j] = (if #s_ritem[#s_rrhs[j]] < 0 then gi[j] + (if #s_rlhs[j] <> #s_rlhs[j - 1] then (if #heap(s_symbol_name[][])[#s_symbol_name[#s_rlhs[j]]] = 36 then 0 else if j > 3 then 3 else 2) else 1) + 0 else gk[#s_rrhs[j + 1] - 1]) };
 assert { forall j. 2 <= j < i -> gi[j + 1] = ge[j] + (if #heap(s_symbol_name[][])[#s_symbol_name[#s_rlhs[j]]] = 36 then 0 else if #s_rprec_bucket[j] = 0 then 0 else 4) };
 assert { forall j. 2 <= j < i -> (not (#heap(s_symbol_name[][])[#s_symbol_name[#s_rlhs[j]]] = 36) -> #s_rprec_bucket[j] <> 0 -> txt[ge[j]] = w_prec /\ txt[ge[j] + 1] = w_lt /\ txt[ge[j] + 2] = St #heap(s_rprec_bucket[]->name)[#s_rprec_bucket[j]]) };
 assert { forall j k. 2 <= j < i -> #s_rrhs[j] <= k < #s_rrhs[j + 1] - 1 -> gk[k + 1] = gk[k] + (if #heap(s_symbol_name[][])[#s_symbol_name[#s_rlhs[j]]] = 36 \/ #heap(s_symbol_name[][])[#s_symbol_name[#s_ritem[k]]] = 36 then 0 else if (#s_ritem[k] < s_ntokens /\ #heap(s_symbol_name[][])[#s_symbol_name[#s_ritem[k]]] <> 34 /\ #heap(s_symbol_name[][])[#s_symbol_name[#s_ritem[k]]] <> 39) then 3 else 1) };
 assert { forall j k. 2 <= j < i -> #s_rrhs[j] <= k < #s_rrhs[j + 1] - 1 -> (not (#heap(s_symbol_name[][])[#s_symbol_name[#s_rlhs[j]]] = 36) -> not (#heap(s_symbol_name[][])[#s_symbol_name[#s_ritem[k]]] = 36) -> if (#s_ritem[k] < s_ntokens /\ #heap(s_symbol_name[][])[#s_symbol_name[#s_ritem[k]]] <> 34 /\ #heap(s_symbol_name[][])[#s_symbol_name[#s_ritem[k]]] <> 39) then txt[gk[k]] = w_lt /\ txt[gk[k] + 1] = St #s_symbol_name[#s_ritem[k]] /\ txt[gk[k] + 2] = w_gt else txt[gk[k]] = St #s_symbol_name[#s_ritem[k]]) };
 assert { (not (#heap(s_symbol_name[][])[#s_symbol_name[#s_rlhs[i]]] = 36) -> #s_rprec_bucket[i] <> 0 -> txt[ge[i]] = w_prec /\ txt[ge[i] + 1] = w_lt /\ txt[ge[i] + 2] = St #heap(s_rprec_bucket[]->name)[#s_rprec_bucket[i]]) };
 assert { ge[i] = (if #s_ritem[#s_rrhs[i]] < 0 then gi[i] + (if #s_rlhs[i] <> #s_rlhs[i - 1] then (if #heap(s_symbol_name[][])[#s_symbol_name[#s_rlhs[i]]] = 36 then 0 else if i > 3 then 3 else 2) else 1) + 0 else gk[#s_rrhs[i + 1] - 1]) /\ ge[i] >= gi[i] + (if #s_rlhs[i] <> #s_rlhs[i - 1] then (if #heap(s_symbol_name[][])[#s_symbol_name[#s_rlhs[i]]] = 36 then 0 else if i > 3 then 3 else 2) else 1) };
 gi <- mset gi (i + 1) txtn;
 assert { forall j. 2 <= j <= i -> gi[j] = hg[j] };
loop 5
inv grows: txtn >= old txtn
before: assert { k = #s_rrhs[i] /\ txtn = gi[i] + (if #s_rlhs[i] <> #s_rlhs[i - 1] then (if #heap(s_symbol_name[][])[#s_symbol_name[#s_rlhs[i]]] = 36 then 0 else if i > 3 then 3 else 2) else 1) };
 gk <- mset gk k txtn;
inv k: #s_rrhs[i] <= k < #s_rrhs[i + 1] /\ gk[k] = txtn /\ gk[#s_rrhs[i]] = gi[i] + (if #s_rlhs[i] <> #s_rlhs[i - 1] then (if #heap(s_symbol_name[][])[#s_symbol_name[#s_rlhs[i]]] = 36 then 0 else if i > 3 then 3 else 2) else 1) /\ txtn >= gi[i] + (if #s_rlhs[i] <> #s_rlhs[i - 1] then (if #heap(s_symbol_name[][])[#s_symbol_name[#s_rlhs[i]]] = 36 then 0 else if i > 3 then 3 else 2) else 1)
inv head: ((#s_rlhs[i] <> #s_rlhs[i - 1] -> not (#heap(s_symbol_name[][])[#s_symbol_name[#s_rlhs[i]]] = 36) -> (i > 3 -> txt[gi[i]] = w_semi /\ txt[gi[i] + 1] = St #s_symbol_name[#s_rlhs[i]] /\ txt[gi[i] + 2] = w_colon) /\ (i = 3 -> txt[gi[i]] = St #s_symbol_name[#s_rlhs[i]] /\ txt[gi[i] + 1] = w_colon) /\ (i = 2 -> txt[gi[i] + 1] = w_colon)) /\ (not (#s_rlhs[i] <> #s_rlhs[i - 1]) -> txt[gi[i]] = w_bar))
inv before: forall p. p < gi[i] -> txt[p] = ho[p]
inv items-before: forall m. m < #s_rrhs[i] -> gk[m] = hk[m]
inv own-places: forall m. #s_rrhs[i] <= m < k -> gk[m + 1] <= txtn
inv own-steps: forall m. #s_rrhs[i] <= m < k -> gk[m + 1] = gk[m] + (if #heap(s_symbol_name[][])[#s_symbol_name[#s_rlhs[i]]] = 36 \/ #heap(s_symbol_name[][])[#s_symbol_name[#s_ritem[m]]] = 36 then 0 else if (#s_ritem[m] < s_ntokens /\ #heap(s_symbol_name[][])[#s_symbol_name[#s_ritem[m]]] <> 34 /\ #heap(s_symbol_name[][])[#s_symbol_name[#s_ritem[m]]] <> 39) then 3 else 1)
inv own-symbols: forall m. #s_rrhs[i] <= m < k -> (not (#heap(s_symbol_name[][])[#s_symbol_name[#s_rlhs[i]]] = 36) -> not (#heap(s_symbol_name[][])[#s_symbol_name[#s_ritem[m]]] = 36) -> if (#s_ritem[m] < s_ntokens /\ #heap(s_symbol_name[][])[#s_symbol_name[#s_ritem[m]]] <> 34 /\ #heap(s_symbol_name[][])[#s_symbol_name[#s_ritem[m]]] <> 39) then txt[gk[m]] = w_lt /\ txt[gk[m] + 1] = St #s_symbol_name[#s_ritem[m]] /\ txt[gk[m] + 2] = w_gt else txt[gk[m]] = St #s_symbol_name[#s_ritem[m]])
after_body: gk <- mset gk k txtn;
after: assert { k = #s_rrhs[i + 1] - 1 };

== print_grammar_lemon files=byacc/reader.c,byacc/main.c props=C13
singleton byacc_t:s_
opt emit
extern lookup lookup_ val
extern get_lemon_token_name tokname val
extern get_lemon_rule_name rulname val
opt merge bp=prec_bucket
use emit.Emit
logic:
 (* where rule i, item k and the end of rule i's items are in the output *)
 val ref gi : map int int
 val ref gk : map int int
 val ref ge : map int int
requires flag: s_lemon_flag <> 0
requires rules: s_nrules >= 3 /\ #s_rrhs[2] = 1 /\ forall i. 2 <= i < s_nrules -> 0 < #s_rrhs[i] < #s_rrhs[i + 1]
requires ordered: forall i j. 2 <= i < j <= s_nrules -> #s_rrhs[i] < #s_rrhs[j]
requires ends: forall i. 2 <= i < s_nrules -> #s_ritem[#s_rrhs[i + 1] - 1] < 0
requires items: forall i k. 2 <= i < s_nrules -> #s_rrhs[i] <= k < #s_rrhs[i + 1] - 1 -> #s_ritem[k] >= 0
ensures begin: gi[2] >= old txtn /\ gi[s_nrules] = txtn
ensures heads: forall j. 2 <= j < s_nrules -> (not (#heap(s_symbol_name[][])[#s_symbol_name[#s_rlhs[j]]] = 36) -> (j <> 2 -> txt[gi[j]] = St (rulf #s_symbol_name[#s_rlhs[j]])) /\ txt[gi[j] + 1] = w_produces)
ensures first: forall j. 2 <= j < s_nrules -> (not (#s_ritem[#s_rrhs[j]] < 0) -> gk[#s_rrhs[j]] = gi[j] + (if #heap(s_symbol_name[][])[#s_symbol_name[#s_rlhs[j]]] = 36 then 0 else 2))
ensures ends: forall j. 2 <= j < s_nrules -> ge[j] = (if #s_ritem[#s_rrhs[j]] < 0 then gi[j] + (if #heap(s_symbol_name[][])[#s_symbol_name[#s_rlhs[j]]] = 36 then 0 else 2) + 0 else gk[#s_rrhs[j + 1] - 1])
ensures next: forall j. 2 <= j < s_nrules -> gi[j + 1] = ge[j] + (if #heap(s_symbol_name[][])[#s_symbol_name[#s_rlhs[j]]] = 36 then 0 else if #s_rprec_bucket[j] = 0 then 1 else 4)
ensures tails: forall j. 2 <= j < s_nrules -> (not (#heap(s_symbol_name[][])[#s_symbol_name[#s_rlhs[j]]] = 36) -> txt[ge[j]] = w_dot /\ (#s_rprec_bucket[j] <> 0 -> txt[ge[j] + 1] = w_open /\ txt[ge[j] + 2] = St (tokf #heap(s_rprec_bucket[]->name)[#s_rprec_bucket[j]]) /\ txt[ge[j] + 3] = w_brack))
ensures steps: forall j k. 2 <= j < s_nrules -> #s_rrhs[j] <= k < #s_rrhs[j + 1] - 1 -> gk[k + 1] = gk[k] + (if #heap(s_symbol_name[][])[#s_symbol_name[#s_rlhs[j]]] = 36 \/ #heap(s_symbol_name[][])[#s_symbol_name[#s_ritem[k]]] = 36 then 0 else 1)
ensures symbols: forall j k. 2 <= j < s_nrules -> #s_rrhs[j] <= k < #s_rrhs[j + 1] - 1 -> (not (#heap(s_symbol_name[][])[#s_symbol_name[#s_rlhs[j]]] = 36) -> not (#heap(s_symbol_name[][])[#s_symbol_name[#s_ritem[k]]] = 36) -> txt[gk[k]] = St (if #heap(bp->class)[bk #s_symbol_name[#s_ritem[k]]] = 1 then tokf #s_symbol_name[#s_ritem[k]] else rulf #s_symbol_name[#s_ritem[k]]))
ghost let ref ho = txt in
ghost let ref hk = gk in
ghost let ref hg = gi in
loop 1
inv grows: txtn >= old txtn
loop 2
inv grows: txtn >= old txtn
loop 3
inv grows: txtn >= old txtn
loop 4
before: gi <- mset gi 2 txtn;
inv grows: txtn >= old txtn
inv i: 2 <= i <= s_nrules /\ k = #s_rrhs[i] /\ gi[i] = txtn
inv begin: gi[2] = (txtn at L4)
inv places: forall j. 2 <= j < i -> gi[j] + (if #heap(s_symbol_name[][])[#s_symbol_name[#s_rlhs[j]]] = 36 then 0 else 2) <= ge[j] /\ gi[j + 1] <= txtn
inv heads: forall j. 2 <= j < i -> (not (#heap(s_symbol_name[][])[#s_symbol_name[#s_rlhs[j]]] = 36) -> (j <> 2 -> txt[gi[j]] = St (rulf #s_symbol_name[#s_rlhs[j]])) /\ txt[gi[j] + 1] = w_produces)
inv first: forall j. 2 <= j < i -> (not (#s_ritem[#s_rrhs[j]] < 0) -> gk[#s_rrhs[j]] = gi[j] + (if #heap(s_symbol_name[][])[#s_symbol_name[#s_rlhs[j]]] = 36 then 0 else 2))
inv ends: forall j. 2 <= j < i -> ge[j] = (if #s_ritem[#s_rrhs[j]] < 0 then gi[j] + (if #heap(s_symbol_name[][])[#s_symbol_name[#s_rlhs[j]]] = 36 then 0 else 2) + 0 else gk[#s_rrhs[j + 1] - 1])
inv next: forall j. 2 <= j < i -> gi[j + 1] = ge[j] + (if #heap(s_symbol_name[][])[#s_symbol_name[#s_rlhs[j]]] = 36 then 0 else if #s_rprec_bucket[j] = 0 then 1 else 4)
inv tails: forall j. 2 <= j < i -> (not (#heap(s_symbol_name[][])[#s_symbol_name[#s_rlhs[j]]] = 36) -> txt[ge[j]] = w_dot /\ (#s_rprec_bucket[j] <> 0 -> txt[ge[j] + 1] = w_open /\ txt[ge[j] + 2] = St (tokf #heap(s_rprec_bucket[]->name)[#s_rprec_bucket[j]]) /\ txt[ge[j] + 3] = w_brack))
inv item-places: forall j k. 2 <= j < i -> #s_rrhs[j] <= k < #s_rrhs[j + 1] - 1 -> gk[k + 1] <= txtn
inv steps: forall j k. 2 <= j < i -> #s_rrhs[j] <= k < #s_rrhs[j + 1] - 1 -> gk[k + 1] = gk[k] + (if #heap(s_symbol_name[][])[#s_symbol_name[#s_rlhs[j]]] = 36 \/ #heap(s_symbol_name[][])[#s_symbol_name[#s_ritem[k]]] = 36 then 0 else 1)
inv symbols: forall j k. 2 <= j < i -> #s_rrhs[j] <= k < #s_rrhs[j + 1] - 1 -> (not (#heap(s_symbol_name[][])[#s_symbol_name[#s_rlhs[j]]] = 36) -> not (#heap(s_symbol_name[][])[#s_symbol_name[#s_ritem[k]]] = 36) -> txt[gk[k]] = St (if #heap(bp->class)[bk #s_symbol_name[#s_ritem[k]]] = 1 then tokf #s_symbol_name[#s_ritem[k]] else rulf #s_symbol_name[#s_ritem[k]]))
body: ho <- txt; hk <- gk; hg <- gi;
after_body: ge <- mset ge i (txtn - (if #heap(s_symbol_name[][])[#s_symbol_name[#s_rlhs[i]]] = 36 then 0 else if #s_rprec_bucket[i] = 0 then 1 else 4));
 assert { (forall p. p < gi[i] -> txt[p] = ho[p]) /\ (forall m. m < #s_rrhs[i] -> gk[m] = hk[m]) };
 assert { (not (#heap(s_symbol_name[][])[#s_symbol_name[#s_rlhs[i]]] = 36) -> (i <> 2 -> txt[gi[i]] = St (rulf #s_symbol_name[#s_rlhs[i]])) /\ txt[gi[i] + 1] = w_produces) };
 assert { forall j. 2 <= j < i -> #s_rrhs[j + 1] - 1 < #s_rrhs[i] };
 assert { forall j. 2 <= j < i -> gk[#s_rrhs[j + 1] - 1] = hk[#s_rrhs[j + 1] - 1] };
 assert { forall j. 2 <= j < i -> gi[j] + (if #heap(s_symbol_name[][])[#s_symbol_name[#s_rlhs[j]]] = 36 then 0 else 2) <= ge[j] /\ gi[j + 1] <= gi[i] };
 assert { forall j. 2 <= j < i -> (not (#heap(s_symbol_name[][])[#s_symbol_name[#s_rlhs[j]]] = 36) -> (j <> 2 -> txt[gi[j]] = St (rulf #s_symbol_name[#s_rlhs[j]])) /\ txt[gi[j] + 1] = w_produces) };
 assert { forall j. 2 <= j < i -> (not (#s_ritem[#s_rrhs[j]] < 0) -> gk[#s_rrhs[j]] = gi[j] + (if #heap(s_symbol_name[][])[#s_symbol_name[#s_rlhs[j]]] = 36 then 0 else 2)) };
 assert { forall j. 2 <= j < i -> ge[j] = (if #s_ritem[#s_rrhs[j]] < 0 then gi[j] + (if #heap(s_symbol_name[][])[#s_symbol_name[#s_rlhs[j]]] = 36 then 0 else 2) + 0 else gk[#s_rrhs[j + 1] - 1]) };
 assert { forall j. 2 <= j < i -> gi[j + 1] = ge[j] + (if #heap(s_symbol_name[][])[#s_symbol_name[#s_rlhs[j]]] = 36 then 0 else if #s_rprec_bucket[j] = 0 then 1 else 4) };
 assert { forall j. 2 <= j < i -> (not (#heap(s_symbol_name[][])[#s_symbol_name[#s_rlhs[j]]] = 36) -> txt[ge[j]] = w_dot /\ (#s_rprec_bucket[j] <> 0 -> txt[ge[j] + 1] = w_open /\ txt[ge[j] + 2] = St (tokf #heap(s_rprec_bucket[]->name)[#s_rprec_bucket[j]]) /\ txt[ge[j] + 3] = w_brack)) };
 assert { forall j k. 2 <= j < i -> #s_rrhs[j] <= k < #s_rrhs[j + 1] - 1 -> gk[k + 1] = gk[k] + (if #heap(s_symbol_name[][])[#s_symbol_name[#s_rlhs[j]]] = 36 \/ #heap(s_symbol_name[][])[#s_symbol_name[#s_ritem[k]]] = 36 then 0 else 1) };
 assert { forall j k. 2 <= j < i -> #s_rrhs[j] <= k < #s_rrhs[j + 1] - 1 -> (not (#heap(s_symbol_name[][])[#s_symbol_name[#s_rlhs[j]]] = 36) -> not (#heap(s_symbol_name[][])[#s_symbol_name[#s_ritem[k]]] = 36) -> txt[gk[k]] = St (if #heap(bp->class)[bk #s_symbol_name[#s_ritem[k]]] = 1 then tokf #s_symbol_name[#s_ritem[k]] else rulf #s_symbol_name[#s_ritem[k]])) };
 assert { (not (#heap(s_symbol_name[][])[#s_symbol_name[#s_rlhs[i]]] = 36) -> txt[ge[i]] = w_dot /\ (#s_rprec_bucket[i] <> 0 -> txt[ge[i] + 1] = w_open /\ txt[ge[i] + 2] = St (tokf #heap(s_rprec_bucket[]->name)[#s_rprec_bucket[i]]) /\ txt[ge[i] + 3] = w_brack)) };
 assert { ge[i] = (if #s_ritem[#s_rrhs[i]] < 0 then gi[i] + (if #heap(s_symbol_name[][])[#s_symbol_name[#s_rlhs[i]]] = 36 then 0 else 2) + 0 else gk[#s_rrhs[i + 1] - 1]) /\ ge[i] >= gi[i] + (if #heap(s_symbol_name[][])[#s_symbol_name[#s_rlhs[i]]] = 36 then 0 else 2) };
 gi <- mset gi (i + 1) txtn;
 assert { forall j. 2 <= j <= i -> gi[j] = hg[j] };
loop 5
inv grows: txtn >= old txtn
before: assert { k = #s_rrhs[i] /\ txtn = gi[i] + (if #heap(s_symbol_name[][])[#s_symbol_name[#s_rlhs[i]]] = 36 then 0 else 2) };
 gk <- mset gk k txtn;
inv k: #s_rrhs[i] <= k < #s_rrhs[i + 1] /\ gk[k] = txtn /\ gk[#s_rrhs[i]] = gi[i] + (if #heap(s_symbol_name[][])[#s_symbol_name[#s_rlhs[i]]] = 36 then 0 else 2) /\ txtn >= gi[i] + (if #heap(s_symbol_name[][])[#s_symbol_name[#s_rlhs[i]]] = 36 then 0 else 2)
inv head: (not (#heap(s_symbol_name[][])[#s_symbol_name[#s_rlhs[i]]] = 36) -> (i <> 2 -> txt[gi[i]] = St (rulf #s_symbol_name[#s_rlhs[i]])) /\ txt[gi[i] + 1] = w_produces)
inv before: forall p. p < gi[i] -> txt[p] = ho[p]
inv items-before: forall m. m < #s_rrhs[i] -> gk[m] = hk[m]
inv own-places: forall m. #s_rrhs[i] <= m < k -> gk[m + 1] <= txtn
inv own-steps: forall m. #s_rrhs[i] <= m < k -> gk[m + 1] = gk[m] + (if #heap(s_symbol_name[][])[#s_symbol_name[#s_rlhs[i]]] = 36 \/ #heap(s_symbol_name[][])[#s_symbol_name[#s_ritem[m]]] = 36 then 0 else 1)
inv own-symbols: forall m. #s_rrhs[i] <= m < k -> (not (#heap(s_symbol_name[][])[#s_symbol_name[#s_rlhs[i]]] = 36) -> not (#heap(s_symbol_name[][])[#s_symbol_name[#s_ritem[m]]] = 36) -> txt[gk[m]] = St (if #heap(bp->class)[bk #s_symbol_name[#s_ritem[m]]] = 1 then tokf #s_symbol_name[#s_ritem[m]] else rulf #s_symbol_name[#s_ritem[m]]))
after_body: gk <- mset gk k txtn;
after: assert { k = #s_rrhs[i + 1] - 1 };
