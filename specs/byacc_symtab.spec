== hash files=byacc/symtab.c props=C09
logic:
 (* the characters of the name, whatever they are; the hash is a function of them alone *)
 function cc int : int
 constant ln : int
 function hv int : int
 axiom hv_0: hv 0 = cc 0
 axiom hv_s: forall k k1 [hv k, hv k1]. k1 = k + 1 -> k >= 0 -> hv k1 = mod (31 * hv k + cc k1) 1024
requires name: name > 0 /\ ln > 0 /\ cc ln = 0 /\ (forall i. 0 <= i < ln -> cc i <> 0) /\ (forall i. 0 <= i <= ln -> #name[i] = cc i)
requires ascii: 0 <= cc 0 < 1024
ensures value: result = hv (ln - 1) /\ 0 <= result < 1024
ghost let ghost ref gk = 0 in
loop 1
before: gk <- 0
inv pos: 0 <= gk < ln /\ s = off name gk /\ k = hv gk /\ 0 <= k < 1024
var: ln - gk
start: assert { off name (gk + 1) = s + 1 /\ #name[gk + 1] = cc (gk + 1) };
after_body: gk <- gk + 1

== make_bucket files=byacc/symtab.c,byacc/main.c props=C09
singleton byacc_t:s_
logic:
 constant ln : int
requires name: name > 0 /\ isstr #heap(name[]) name ln /\ name + ln < #brk(result->name)
requires brk: #brk(result) > 0 /\ #brk(result->name) > 0
ensures fresh: result >= old #brk(result) /\ result > 0 /\ result < #brk(result) /\ #brk(result) >= old #brk(result)
ensures name: forall i. 0 <= i <= ln -> #heap(result->name[])[off #result->name i] = (old #heap(name[]))[off name i]
ensures name-fresh: #result->name >= old #brk(result->name) /\ #result->name + ln < #brk(result->name)
ensures init: #result->link = 0 /\ #result->next = 0 /\ #result->value = -1 /\ #result->class = 0 /\ #result->prec = 0 /\ #result->index = 0 /\ #result->tag = 0 /\ #result->assoc = 0
ensures frame: forall x. x < old #brk(result) -> #heap(result->link)[x] = (old #heap(result->link))[x] /\ #heap(result->next)[x] = (old #heap(result->next))[x] /\ #heap(result->name)[x] = (old #heap(result->name))[x] /\
  #heap(result->value)[x] = (old #heap(result->value))[x] /\ #heap(result->class)[x] = (old #heap(result->class))[x] /\ #heap(result->prec)[x] = (old #heap(result->prec))[x]
ensures frame-names: forall x. x < old #brk(result->name) -> #heap(result->name[])[x] = (old #heap(result->name[]))[x]

== lookup files=byacc/symtab.c,byacc/main.c props=C09
singleton byacc_t:s_
ghost let ghost ref gk = 0 in
logic:
 (* the characters of the name; the symbols chained under its hash value: arbitrary *)
 function cc int : int
 constant ln : int
 function hv int : int
 axiom hv_0: hv 0 = cc 0
 axiom hv_s: forall k k1 [hv k, hv k1]. k1 = k + 1 -> k >= 0 -> hv k1 = mod (31 * hv k + cc k1) 1024
 function ch int : int
 constant cl : int
requires name: name > 0 /\ ln > 0 /\ cc ln = 0 /\ (forall i. 0 <= i < ln -> cc i <> 0) /\ (forall i. 0 <= i <= ln -> #name[i] = cc i) /\ 0 <= cc 0 < 1024
requires storage: s_fs7_symbol_table > 0 /\ #brk(s_last_symbol) > 0 /\ #brk(s_last_symbol->name) > 0 /\ 0 < s_last_symbol < #brk(s_last_symbol) /\ name + ln < #brk(s_last_symbol->name)
requires chain: cl >= 0 /\ #s_fs7_symbol_table[hv (ln - 1)] = ch 0 /\ ch cl = 0 /\ (forall k. 0 <= k < cl -> 0 < ch k < #brk(s_last_symbol) /\ #heap(s_last_symbol->link)[ch k] = ch (k + 1))
requires distinct: forall j k. 0 <= j < k < cl -> ch j <> ch k
requires names: forall k. 0 <= k < cl -> #heap(s_last_symbol->name)[ch k] < #brk(s_last_symbol->name)
ensures known: s_last_symbol = old s_last_symbol -> exists k. 0 <= k < cl /\ result = ch k /\ streq #heap(name[]) name #heap(result->name[]) #result->name
ensures new: s_last_symbol <> old s_last_symbol -> (forall k. 0 <= k < cl -> not (streq #heap(name[]) name (old #heap(result->name[])) (old #heap(result->name))[ch k])) /\
   result >= old #brk(result) /\ result = s_last_symbol /\ #heap(result->next)[old s_last_symbol] = result /\ #result->next = 0 /\ #result->link = 0 /\
   (forall i. 0 <= i <= ln -> #heap(result->name[])[off #result->name i] = cc i)
ensures linked: s_last_symbol <> old s_last_symbol -> if cl = 0 then #s_fs7_symbol_table[hv (ln - 1)] = result else #heap(result->link)[ch (cl - 1)] = result
ensures frame: (forall x. x <> off s_fs7_symbol_table (hv (ln - 1)) -> #heap(s_fs7_symbol_table[])[x] = (old #heap(s_fs7_symbol_table[]))[x]) /\
   (forall x. x < old #brk(result) -> (x <> ch (cl - 1) -> #heap(result->link)[x] = (old #heap(result->link))[x]) /\ (x <> old s_last_symbol -> #heap(result->next)[x] = (old #heap(result->next))[x]) /\
   #heap(result->name)[x] = (old #heap(result->name))[x])
ensures frame-known: s_last_symbol = old s_last_symbol -> (forall x. #heap(s_fs7_symbol_table[])[x] = (old #heap(s_fs7_symbol_table[]))[x] /\ #heap(result->link)[x] = (old #heap(result->link))[x] /\ #heap(result->next)[x] = (old #heap(result->next))[x])
loop 1
before: gk <- 0
inv pos: 0 <= gk <= cl /\ bp = ch gk /\ (if gk = 0 then bpp = off s_fs7_symbol_table (hv (ln - 1)) else bpp = - ch (gk - 1))
inv absent: forall k. 0 <= k < gk -> not (streq #heap(name[]) name #heap(bp->name[]) #heap(bp->name)[ch k])
var: cl - gk
after_body: gk <- gk + 1

== hash@any files=byacc/symtab.c props=C09
requires name: name > 0 /\ #name[0] <> 0 /\ (exists n. isstr #heap(name[]) name n) /\ 0 <= #name[0] < 1024
ensures range: 0 <= result < 1024
loop 1
inv s: 0 <= s - name < slen #heap(name[]) name /\ 0 <= k < 1024
start: assert { off name (s - name) = s /\ off name (s - name + 1) = s + 1 };
var: slen #heap(name[]) name - (s - name)

== lookup@any files=byacc/symtab.c,byacc/main.c props=C09
singleton byacc_t:s_
opt callee hash=hash@any make_bucket=make_bucket@any
requires name: name > 0 /\ #name[0] <> 0 /\ (exists n. isstr #heap(name[]) name n) /\ 0 <= #name[0] < 1024
requires storage: #brk(result) > 0 /\ #brk(result->name) > 0
ensures symbol: result <> 0
ensures storage: #brk(result) > 0 /\ #brk(result->name) > 0
loop 1
inv e: bp = bp

== make_bucket@any files=byacc/symtab.c,byacc/main.c props=C09
singleton byacc_t:s_
requires name: name > 0 /\ exists n. isstr #heap(name[]) name n
requires brk: #brk(result) > 0 /\ #brk(result->name) > 0
ensures fresh: result > 0
ensures brk: #brk(result) > 0 /\ #brk(result->name) > 0
