== strhash files=lemon/lemon.c props=L06
use hashes.StrHash
requires string: exists n. isstr #heap(x[]) x n
ensures value: result = shash #heap(x[]) x
loop 1
inv at: 0 <= x - (x at L1) <= slen #heap(x[]) (x at L1)
inv h: h = hs #heap(x[]) (x at L1) (x - (x at L1))
start: assert { off (x at L1) (x - (x at L1)) = x };
after: assert { isstr #heap(x[]) (x at L1) (x - (x at L1)) };
var: slen #heap(x[]) (x at L1) - (x - (x at L1))

== Strsafe_find files=lemon/lemon.c props=L06
singleton lemon:l_
use clib.CBits
use hashes.StrHash
logic:
 (* hash of the i-th entry, whatever it is *)
 function hv int : int
 function bk int int : int
 axiom bk_def: forall s i [bk s i]. bk s i = band (hv i) (s - 1)
requires table: #l_x1a <> 0 /\ #l_x1a->tbl > 0 /\ #l_x1a->size >= 1 /\ #l_x1a->count >= 0
requires strings: (exists n. isstr #heap(key[]) key n) /\ forall i. 0 <= i < #l_x1a->count -> exists n. isstr #heap(l_x1a->ht[]->data[]) (#heap(l_x1a->ht[]->data)[off #l_x1a->tbl i]) n
requires hashes: forall i. 0 <= i < #l_x1a->count -> hv i = shash #heap(l_x1a->ht[]->data[]) #heap(l_x1a->ht[]->data)[off #l_x1a->tbl i]
requires used: forall i. 0 <= i < #l_x1a->count -> #heap(l_x1a->ht[]->data)[off #l_x1a->tbl i] <> 0
requires chains: (forall i. 0 <= i < #l_x1a->count -> ((#heap(l_x1a->ht[]->next)[off #l_x1a->tbl i] = 0 /\ forall k. 0 <= k < i -> bk #l_x1a->size k <> bk #l_x1a->size i) \/ exists j. 0 <= j < i /\ #heap(l_x1a->ht[]->next)[off #l_x1a->tbl i] = off #l_x1a->tbl j /\ bk #l_x1a->size j = bk #l_x1a->size i /\ forall k. j < k < i -> bk #l_x1a->size k <> bk #l_x1a->size i))
requires heads: (forall b. 0 <= b < #l_x1a->size -> ((#heap(l_x1a->ht[])[off #l_x1a->ht b] = 0 /\ forall k. 0 <= k < #l_x1a->count -> bk #l_x1a->size k <> b) \/ exists j. 0 <= j < #l_x1a->count /\ #heap(l_x1a->ht[])[off #l_x1a->ht b] = off #l_x1a->tbl j /\ bk #l_x1a->size j = b /\ forall k. j < k < #l_x1a->count -> bk #l_x1a->size k <> b))
ensures found: result <> 0 -> exists i. 0 <= i < #l_x1a->count /\ result = #heap(l_x1a->ht[]->data)[off #l_x1a->tbl i] /\ streq #heap(l_x1a->ht[]->data[]) (#heap(l_x1a->ht[]->data)[off #l_x1a->tbl i]) #heap(key[]) key
ensures missing: result = 0 -> forall i. 0 <= i < #l_x1a->count -> not streq #heap(l_x1a->ht[]->data[]) (#heap(l_x1a->ht[]->data)[off #l_x1a->tbl i]) #heap(key[]) key
loop 1
before: assert { forall i. 0 <= i < #l_x1a->count -> streq #heap(l_x1a->ht[]->data[]) (#heap(l_x1a->ht[]->data)[off #l_x1a->tbl i]) #heap(key[]) key -> hv i = shash #heap(key[]) key /\ bk #l_x1a->size i = h };
inv at: (np = 0 /\ forall k. 0 <= k < #l_x1a->count -> not streq #heap(l_x1a->ht[]->data[]) (#heap(l_x1a->ht[]->data)[off #l_x1a->tbl k]) #heap(key[]) key) \/ exists j. 0 <= j < #l_x1a->count /\ np = off #l_x1a->tbl j /\ bk #l_x1a->size j = h /\ forall k. j < k < #l_x1a->count -> not streq #heap(l_x1a->ht[]->data[]) (#heap(l_x1a->ht[]->data)[off #l_x1a->tbl k]) #heap(key[]) key
inv h: 0 <= h < #l_x1a->size
var: if np = 0 then 0 else np - #l_x1a->tbl + 1

== Strsafe_insert files=lemon/lemon.c props=L06
singleton lemon:l_
opt deadfields from
use clib.CBits
use hashes.StrHash
logic:
 (* hash of the i-th entry, whatever it is *)
 function hv int : int
 function bk int int : int
 axiom bk_def: forall s i [bk s i]. bk s i = band (hv i) (s - 1)
requires table: #l_x1a <> 0 /\ #l_x1a->tbl > 0 /\ #l_x1a->size >= 1 /\ 0 <= #l_x1a->count <= #l_x1a->size /\ #l_x1a->tbl + #l_x1a->size <= #brk(l_x1a->tbl)
requires strings: (exists n. isstr #heap(data[]) data n) /\ forall i. 0 <= i < #l_x1a->count -> exists n. isstr #heap(data[]) (#heap(l_x1a->tbl->data)[off #l_x1a->tbl i]) n
requires hashes: (forall i. 0 <= i < #l_x1a->count -> hv i = shash #heap(data[]) #heap(l_x1a->tbl->data)[off #l_x1a->tbl i]) /\ hv #l_x1a->count = shash #heap(data[]) data
requires chains: (forall i. 0 <= i < #l_x1a->count -> ((#heap(l_x1a->tbl->next)[off #l_x1a->tbl i] = 0 /\ forall k. 0 <= k < i -> bk #l_x1a->size k <> bk #l_x1a->size i) \/ exists j. 0 <= j < i /\ #heap(l_x1a->tbl->next)[off #l_x1a->tbl i] = off #l_x1a->tbl j /\ bk #l_x1a->size j = bk #l_x1a->size i /\ forall k. j < k < i -> bk #l_x1a->size k <> bk #l_x1a->size i))
requires heads: (forall b. 0 <= b < #l_x1a->size -> ((#heap(l_x1a->ht[])[off #l_x1a->ht b] = 0 /\ forall k. 0 <= k < #l_x1a->count -> bk #l_x1a->size k <> b) \/ exists j. 0 <= j < #l_x1a->count /\ #heap(l_x1a->ht[])[off #l_x1a->ht b] = off #l_x1a->tbl j /\ bk #l_x1a->size j = b /\ forall k. j < k < #l_x1a->count -> bk #l_x1a->size k <> b))
ensures full: result = 0 -> #l_x1a->count = old #l_x1a->count /\ #l_x1a->size = old #l_x1a->size /\ #l_x1a->tbl = old #l_x1a->tbl /\ #l_x1a->ht = old #l_x1a->ht /\ exists i. 0 <= i < #l_x1a->count /\ streq #heap(data[]) (#heap(l_x1a->tbl->data)[off #l_x1a->tbl i]) #heap(data[]) data
ensures fresh: result <> 0 -> forall i. 0 <= i < old #l_x1a->count -> not streq #heap(data[]) (#heap(l_x1a->tbl->data)[off #l_x1a->tbl i]) #heap(data[]) data
ensures stored: result <> 0 -> #l_x1a->count = old #l_x1a->count + 1 /\ #heap(l_x1a->tbl->data)[off #l_x1a->tbl (old #l_x1a->count)] = data /\ #heap(l_x1a->tbl->data)[off #l_x1a->tbl (old #l_x1a->count)] = data
ensures kept: forall i. 0 <= i < old #l_x1a->count -> #heap(l_x1a->tbl->data)[off #l_x1a->tbl i] = (old #heap(l_x1a->tbl->data))[off (old #l_x1a->tbl) i]
ensures table: #l_x1a = old #l_x1a /\ #l_x1a->tbl > 0 /\ #l_x1a->size >= 1 /\ 0 <= #l_x1a->count <= #l_x1a->size /\ #l_x1a->tbl + #l_x1a->size <= #brk(l_x1a->tbl)
ensures chains: (forall i. 0 <= i < #l_x1a->count -> ((#heap(l_x1a->tbl->next)[off #l_x1a->tbl i] = 0 /\ forall k. 0 <= k < i -> bk #l_x1a->size k <> bk #l_x1a->size i) \/ exists j. 0 <= j < i /\ #heap(l_x1a->tbl->next)[off #l_x1a->tbl i] = off #l_x1a->tbl j /\ bk #l_x1a->size j = bk #l_x1a->size i /\ forall k. j < k < i -> bk #l_x1a->size k <> bk #l_x1a->size i))
ensures heads: (forall b. 0 <= b < #l_x1a->size -> ((#heap(l_x1a->ht[])[off #l_x1a->ht b] = 0 /\ forall k. 0 <= k < #l_x1a->count -> bk #l_x1a->size k <> b) \/ exists j. 0 <= j < #l_x1a->count /\ #heap(l_x1a->ht[])[off #l_x1a->ht b] = off #l_x1a->tbl j /\ bk #l_x1a->size j = b /\ forall k. j < k < #l_x1a->count -> bk #l_x1a->size k <> b))
loop 1
before: assert { forall i. 0 <= i < #l_x1a->count -> streq #heap(data[]) (#heap(l_x1a->tbl->data)[off #l_x1a->tbl i]) #heap(data[]) data -> hv i = shash #heap(data[]) data /\ bk #l_x1a->size i = h };
inv at: (np = 0 /\ forall k. 0 <= k < #l_x1a->count -> not streq #heap(data[]) (#heap(l_x1a->tbl->data)[off #l_x1a->tbl k]) #heap(data[]) data) \/ exists j. 0 <= j < #l_x1a->count /\ np = off #l_x1a->tbl j /\ bk #l_x1a->size j = h /\ forall k. j < k < #l_x1a->count -> not streq #heap(data[]) (#heap(l_x1a->tbl->data)[off #l_x1a->tbl k]) #heap(data[]) data
inv h: 0 <= h < #l_x1a->size
var: if np = 0 then 0 else np - #l_x1a->tbl + 1
after: assert { forall k. 0 <= k < #l_x1a->count -> not streq #heap(data[]) (#heap(l_x1a->tbl->data)[off #l_x1a->tbl k]) #heap(data[]) data };
loop 2
inv i: 0 <= i <= arrSize
inv clear: forall b. 0 <= b < i -> #heap(array->ht[])[off #array->ht b] = 0
var: arrSize - i
loop 3
before: assert { forall i. 0 <= i < #l_x1a->count -> off #l_x1a->tbl i < #array->tbl };
inv i: 0 <= i <= #l_x1a->count
inv old: forall k. 0 <= k < #l_x1a->count -> #heap(l_x1a->tbl->data)[off #l_x1a->tbl k] = (#heap(l_x1a->tbl->data) at L3)[off #l_x1a->tbl k]
inv new: forall k. 0 <= k < i -> #heap(l_x1a->tbl->data)[off #array->tbl k] = (#heap(l_x1a->tbl->data) at L3)[off #l_x1a->tbl k]
inv chains: (forall m. 0 <= m < i -> ((#heap(l_x1a->tbl->next)[off #array->tbl m] = 0 /\ forall k. 0 <= k < m -> bk arrSize k <> bk arrSize m) \/ exists j. 0 <= j < m /\ #heap(l_x1a->tbl->next)[off #array->tbl m] = off #array->tbl j /\ bk arrSize j = bk arrSize m /\ forall k. j < k < m -> bk arrSize k <> bk arrSize m))
inv heads: (forall b. 0 <= b < arrSize -> ((#heap(l_x1a->ht[])[off #array->ht b] = 0 /\ forall k. 0 <= k < i -> bk arrSize k <> b) \/ exists j. 0 <= j < i /\ #heap(l_x1a->ht[])[off #array->ht b] = off #array->tbl j /\ bk arrSize j = b /\ forall k. j < k < i -> bk arrSize k <> b))
var: #l_x1a->count - i
body: assert { shash #heap(data[]) #heap(l_x1a->tbl->data)[off #l_x1a->tbl i] = hv i };
store h#3: assert { 0 <= h < #l_x1a->size /\ #l_x1a->count < #l_x1a->size };
 assert { bk #l_x1a->size #l_x1a->count = h };
 assert { (forall i. 0 <= i < #l_x1a->count -> ((#heap(l_x1a->tbl->next)[off #l_x1a->tbl i] = 0 /\ forall k. 0 <= k < i -> bk #l_x1a->size k <> bk #l_x1a->size i) \/ exists j. 0 <= j < i /\ #heap(l_x1a->tbl->next)[off #l_x1a->tbl i] = off #l_x1a->tbl j /\ bk #l_x1a->size j = bk #l_x1a->size i /\ forall k. j < k < i -> bk #l_x1a->size k <> bk #l_x1a->size i)) };
 assert { (forall b. 0 <= b < #l_x1a->size -> ((#heap(l_x1a->ht[])[off #l_x1a->ht b] = 0 /\ forall k. 0 <= k < #l_x1a->count -> bk #l_x1a->size k <> b) \/ exists j. 0 <= j < #l_x1a->count /\ #heap(l_x1a->ht[])[off #l_x1a->ht b] = off #l_x1a->tbl j /\ bk #l_x1a->size j = b /\ forall k. j < k < #l_x1a->count -> bk #l_x1a->size k <> b)) };

== Symbol_find files=lemon/lemon.c props=L06
singleton lemon:l_
use clib.CBits
use hashes.StrHash
logic:
 (* hash of the i-th entry, whatever it is *)
 function hv int : int
 function bk int int : int
 axiom bk_def: forall s i [bk s i]. bk s i = band (hv i) (s - 1)
requires table: #l_x2a <> 0 /\ #l_x2a->tbl > 0 /\ #l_x2a->size >= 1 /\ #l_x2a->count >= 0
requires strings: (exists n. isstr #heap(key[]) key n) /\ forall i. 0 <= i < #l_x2a->count -> exists n. isstr #heap(l_x2a->ht[]->key[]) (#heap(l_x2a->ht[]->key)[off #l_x2a->tbl i]) n
requires hashes: forall i. 0 <= i < #l_x2a->count -> hv i = shash #heap(l_x2a->ht[]->key[]) #heap(l_x2a->ht[]->key)[off #l_x2a->tbl i]
requires used: forall i. 0 <= i < #l_x2a->count -> #heap(l_x2a->ht[]->data)[off #l_x2a->tbl i] <> 0
requires chains: (forall i. 0 <= i < #l_x2a->count -> ((#heap(l_x2a->ht[]->next)[off #l_x2a->tbl i] = 0 /\ forall k. 0 <= k < i -> bk #l_x2a->size k <> bk #l_x2a->size i) \/ exists j. 0 <= j < i /\ #heap(l_x2a->ht[]->next)[off #l_x2a->tbl i] = off #l_x2a->tbl j /\ bk #l_x2a->size j = bk #l_x2a->size i /\ forall k. j < k < i -> bk #l_x2a->size k <> bk #l_x2a->size i))
requires heads: (forall b. 0 <= b < #l_x2a->size -> ((#heap(l_x2a->ht[])[off #l_x2a->ht b] = 0 /\ forall k. 0 <= k < #l_x2a->count -> bk #l_x2a->size k <> b) \/ exists j. 0 <= j < #l_x2a->count /\ #heap(l_x2a->ht[])[off #l_x2a->ht b] = off #l_x2a->tbl j /\ bk #l_x2a->size j = b /\ forall k. j < k < #l_x2a->count -> bk #l_x2a->size k <> b))
ensures found: result <> 0 -> exists i. 0 <= i < #l_x2a->count /\ result = #heap(l_x2a->ht[]->data)[off #l_x2a->tbl i] /\ streq #heap(l_x2a->ht[]->key[]) (#heap(l_x2a->ht[]->key)[off #l_x2a->tbl i]) #heap(key[]) key
ensures missing: result = 0 -> forall i. 0 <= i < #l_x2a->count -> not streq #heap(l_x2a->ht[]->key[]) (#heap(l_x2a->ht[]->key)[off #l_x2a->tbl i]) #heap(key[]) key
loop 1
before: assert { forall i. 0 <= i < #l_x2a->count -> streq #heap(l_x2a->ht[]->key[]) (#heap(l_x2a->ht[]->key)[off #l_x2a->tbl i]) #heap(key[]) key -> hv i = shash #heap(key[]) key /\ bk #l_x2a->size i = h };
inv at: (np = 0 /\ forall k. 0 <= k < #l_x2a->count -> not streq #heap(l_x2a->ht[]->key[]) (#heap(l_x2a->ht[]->key)[off #l_x2a->tbl k]) #heap(key[]) key) \/ exists j. 0 <= j < #l_x2a->count /\ np = off #l_x2a->tbl j /\ bk #l_x2a->size j = h /\ forall k. j < k < #l_x2a->count -> not streq #heap(l_x2a->ht[]->key[]) (#heap(l_x2a->ht[]->key)[off #l_x2a->tbl k]) #heap(key[]) key
inv h: 0 <= h < #l_x2a->size
var: if np = 0 then 0 else np - #l_x2a->tbl + 1

== Symbol_insert files=lemon/lemon.c props=L06
singleton lemon:l_
opt deadfields from
use clib.CBits
use hashes.StrHash
logic:
 (* hash of the i-th entry, whatever it is *)
 function hv int : int
 function bk int int : int
 axiom bk_def: forall s i [bk s i]. bk s i = band (hv i) (s - 1)
requires table: #l_x2a <> 0 /\ #l_x2a->tbl > 0 /\ #l_x2a->size >= 1 /\ 0 <= #l_x2a->count <= #l_x2a->size /\ #l_x2a->tbl + #l_x2a->size <= #brk(l_x2a->tbl)
requires strings: (exists n. isstr #heap(key[]) key n) /\ forall i. 0 <= i < #l_x2a->count -> exists n. isstr #heap(key[]) (#heap(l_x2a->tbl->key)[off #l_x2a->tbl i]) n
requires hashes: (forall i. 0 <= i < #l_x2a->count -> hv i = shash #heap(key[]) #heap(l_x2a->tbl->key)[off #l_x2a->tbl i]) /\ hv #l_x2a->count = shash #heap(key[]) key
requires chains: (forall i. 0 <= i < #l_x2a->count -> ((#heap(l_x2a->tbl->next)[off #l_x2a->tbl i] = 0 /\ forall k. 0 <= k < i -> bk #l_x2a->size k <> bk #l_x2a->size i) \/ exists j. 0 <= j < i /\ #heap(l_x2a->tbl->next)[off #l_x2a->tbl i] = off #l_x2a->tbl j /\ bk #l_x2a->size j = bk #l_x2a->size i /\ forall k. j < k < i -> bk #l_x2a->size k <> bk #l_x2a->size i))
requires heads: (forall b. 0 <= b < #l_x2a->size -> ((#heap(l_x2a->ht[])[off #l_x2a->ht b] = 0 /\ forall k. 0 <= k < #l_x2a->count -> bk #l_x2a->size k <> b) \/ exists j. 0 <= j < #l_x2a->count /\ #heap(l_x2a->ht[])[off #l_x2a->ht b] = off #l_x2a->tbl j /\ bk #l_x2a->size j = b /\ forall k. j < k < #l_x2a->count -> bk #l_x2a->size k <> b))
ensures full: result = 0 -> #l_x2a->count = old #l_x2a->count /\ #l_x2a->size = old #l_x2a->size /\ #l_x2a->tbl = old #l_x2a->tbl /\ #l_x2a->ht = old #l_x2a->ht /\ exists i. 0 <= i < #l_x2a->count /\ streq #heap(key[]) (#heap(l_x2a->tbl->key)[off #l_x2a->tbl i]) #heap(key[]) key
ensures fresh: result <> 0 -> forall i. 0 <= i < old #l_x2a->count -> not streq #heap(key[]) (#heap(l_x2a->tbl->key)[off #l_x2a->tbl i]) #heap(key[]) key
ensures stored: result <> 0 -> #l_x2a->count = old #l_x2a->count + 1 /\ #heap(l_x2a->tbl->key)[off #l_x2a->tbl (old #l_x2a->count)] = key /\ #heap(l_x2a->tbl->data)[off #l_x2a->tbl (old #l_x2a->count)] = data
ensures kept: forall i. 0 <= i < old #l_x2a->count -> #heap(l_x2a->tbl->data)[off #l_x2a->tbl i] = (old #heap(l_x2a->tbl->data))[off (old #l_x2a->tbl) i] /\ #heap(l_x2a->tbl->key)[off #l_x2a->tbl i] = (old #heap(l_x2a->tbl->key))[off (old #l_x2a->tbl) i]
ensures table: #l_x2a = old #l_x2a /\ #l_x2a->tbl > 0 /\ #l_x2a->size >= 1 /\ 0 <= #l_x2a->count <= #l_x2a->size /\ #l_x2a->tbl + #l_x2a->size <= #brk(l_x2a->tbl)
ensures chains: (forall i. 0 <= i < #l_x2a->count -> ((#heap(l_x2a->tbl->next)[off #l_x2a->tbl i] = 0 /\ forall k. 0 <= k < i -> bk #l_x2a->size k <> bk #l_x2a->size i) \/ exists j. 0 <= j < i /\ #heap(l_x2a->tbl->next)[off #l_x2a->tbl i] = off #l_x2a->tbl j /\ bk #l_x2a->size j = bk #l_x2a->size i /\ forall k. j < k < i -> bk #l_x2a->size k <> bk #l_x2a->size i))
ensures heads: (forall b. 0 <= b < #l_x2a->size -> ((#heap(l_x2a->ht[])[off #l_x2a->ht b] = 0 /\ forall k. 0 <= k < #l_x2a->count -> bk #l_x2a->size k <> b) \/ exists j. 0 <= j < #l_x2a->count /\ #heap(l_x2a->ht[])[off #l_x2a->ht b] = off #l_x2a->tbl j /\ bk #l_x2a->size j = b /\ forall k. j < k < #l_x2a->count -> bk #l_x2a->size k <> b))
loop 1
before: assert { forall i. 0 <= i < #l_x2a->count -> streq #heap(key[]) (#heap(l_x2a->tbl->key)[off #l_x2a->tbl i]) #heap(key[]) key -> hv i = shash #heap(key[]) key /\ bk #l_x2a->size i = h };
inv at: (np = 0 /\ forall k. 0 <= k < #l_x2a->count -> not streq #heap(key[]) (#heap(l_x2a->tbl->key)[off #l_x2a->tbl k]) #heap(key[]) key) \/ exists j. 0 <= j < #l_x2a->count /\ np = off #l_x2a->tbl j /\ bk #l_x2a->size j = h /\ forall k. j < k < #l_x2a->count -> not streq #heap(key[]) (#heap(l_x2a->tbl->key)[off #l_x2a->tbl k]) #heap(key[]) key
inv h: 0 <= h < #l_x2a->size
var: if np = 0 then 0 else np - #l_x2a->tbl + 1
after: assert { forall k. 0 <= k < #l_x2a->count -> not streq #heap(key[]) (#heap(l_x2a->tbl->key)[off #l_x2a->tbl k]) #heap(key[]) key };
loop 2
inv i: 0 <= i <= arrSize
inv clear: forall b. 0 <= b < i -> #heap(array->ht[])[off #array->ht b] = 0
var: arrSize - i
loop 3
before: assert { forall i. 0 <= i < #l_x2a->count -> off #l_x2a->tbl i < #array->tbl };
inv i: 0 <= i <= #l_x2a->count
inv old: forall k. 0 <= k < #l_x2a->count -> #heap(l_x2a->tbl->data)[off #l_x2a->tbl k] = (#heap(l_x2a->tbl->data) at L3)[off #l_x2a->tbl k] /\ #heap(l_x2a->tbl->key)[off #l_x2a->tbl k] = (#heap(l_x2a->tbl->key) at L3)[off #l_x2a->tbl k]
inv new: forall k. 0 <= k < i -> #heap(l_x2a->tbl->data)[off #array->tbl k] = (#heap(l_x2a->tbl->data) at L3)[off #l_x2a->tbl k] /\ #heap(l_x2a->tbl->key)[off #array->tbl k] = (#heap(l_x2a->tbl->key) at L3)[off #l_x2a->tbl k]
inv chains: (forall m. 0 <= m < i -> ((#heap(l_x2a->tbl->next)[off #array->tbl m] = 0 /\ forall k. 0 <= k < m -> bk arrSize k <> bk arrSize m) \/ exists j. 0 <= j < m /\ #heap(l_x2a->tbl->next)[off #array->tbl m] = off #array->tbl j /\ bk arrSize j = bk arrSize m /\ forall k. j < k < m -> bk arrSize k <> bk arrSize m))
inv heads: (forall b. 0 <= b < arrSize -> ((#heap(l_x2a->ht[])[off #array->ht b] = 0 /\ forall k. 0 <= k < i -> bk arrSize k <> b) \/ exists j. 0 <= j < i /\ #heap(l_x2a->ht[])[off #array->ht b] = off #array->tbl j /\ bk arrSize j = b /\ forall k. j < k < i -> bk arrSize k <> b))
var: #l_x2a->count - i
body: assert { shash #heap(key[]) #heap(l_x2a->tbl->key)[off #l_x2a->tbl i] = hv i };
store h#3: assert { 0 <= h < #l_x2a->size /\ #l_x2a->count < #l_x2a->size };
 assert { bk #l_x2a->size #l_x2a->count = h };
 assert { (forall i. 0 <= i < #l_x2a->count -> ((#heap(l_x2a->tbl->next)[off #l_x2a->tbl i] = 0 /\ forall k. 0 <= k < i -> bk #l_x2a->size k <> bk #l_x2a->size i) \/ exists j. 0 <= j < i /\ #heap(l_x2a->tbl->next)[off #l_x2a->tbl i] = off #l_x2a->tbl j /\ bk #l_x2a->size j = bk #l_x2a->size i /\ forall k. j < k < i -> bk #l_x2a->size k <> bk #l_x2a->size i)) };
 assert { (forall b. 0 <= b < #l_x2a->size -> ((#heap(l_x2a->ht[])[off #l_x2a->ht b] = 0 /\ forall k. 0 <= k < #l_x2a->count -> bk #l_x2a->size k <> b) \/ exists j. 0 <= j < #l_x2a->count /\ #heap(l_x2a->ht[])[off #l_x2a->ht b] = off #l_x2a->tbl j /\ bk #l_x2a->size j = b /\ forall k. j < k < #l_x2a->count -> bk #l_x2a->size k <> b)) };

== confighash files=lemon/lemon.c props=L02,L06
ensures value: result = #a->rp->index * 37 + #a->dot

== Configtable_find files=lemon/lemon.c props=L02,L06
singleton lemon:l_
use clib.CBits
logic:
 (* hash of the i-th entry, whatever it is *)
 function hv int : int
 function bk int int : int
 axiom bk_def: forall s i [bk s i]. bk s i = band (hv i) (s - 1)
requires table: #l_x4a <> 0 /\ #l_x4a->tbl > 0 /\ #l_x4a->size >= 1 /\ #l_x4a->count >= 0
requires hashes: forall i. 0 <= i < #l_x4a->count -> hv i = #heap(l_x4a->ht[]->data->rp->index)[#heap(l_x4a->ht[]->data->rp)[#heap(l_x4a->ht[]->data)[off #l_x4a->tbl i]]] * 37 + #heap(l_x4a->ht[]->data->dot)[#heap(l_x4a->ht[]->data)[off #l_x4a->tbl i]]
requires used: forall i. 0 <= i < #l_x4a->count -> #heap(l_x4a->ht[]->data)[off #l_x4a->tbl i] <> 0
requires chains: (forall i. 0 <= i < #l_x4a->count -> ((#heap(l_x4a->ht[]->next)[off #l_x4a->tbl i] = 0 /\ forall k. 0 <= k < i -> bk #l_x4a->size k <> bk #l_x4a->size i) \/ exists j. 0 <= j < i /\ #heap(l_x4a->ht[]->next)[off #l_x4a->tbl i] = off #l_x4a->tbl j /\ bk #l_x4a->size j = bk #l_x4a->size i /\ forall k. j < k < i -> bk #l_x4a->size k <> bk #l_x4a->size i))
requires heads: (forall b. 0 <= b < #l_x4a->size -> ((#heap(l_x4a->ht[])[off #l_x4a->ht b] = 0 /\ forall k. 0 <= k < #l_x4a->count -> bk #l_x4a->size k <> b) \/ exists j. 0 <= j < #l_x4a->count /\ #heap(l_x4a->ht[])[off #l_x4a->ht b] = off #l_x4a->tbl j /\ bk #l_x4a->size j = b /\ forall k. j < k < #l_x4a->count -> bk #l_x4a->size k <> b))
ensures found: result <> 0 -> exists i. 0 <= i < #l_x4a->count /\ result = #heap(l_x4a->ht[]->data)[off #l_x4a->tbl i] /\ (#heap(l_x4a->ht[]->data->rp->index)[#heap(l_x4a->ht[]->data->rp)[#heap(l_x4a->ht[]->data)[off #l_x4a->tbl i]]] = #heap(key->rp->index)[#heap(key->rp)[key]] /\ #heap(l_x4a->ht[]->data->dot)[#heap(l_x4a->ht[]->data)[off #l_x4a->tbl i]] = #heap(key->dot)[key])
ensures missing: result = 0 -> forall i. 0 <= i < #l_x4a->count -> not (#heap(l_x4a->ht[]->data->rp->index)[#heap(l_x4a->ht[]->data->rp)[#heap(l_x4a->ht[]->data)[off #l_x4a->tbl i]]] = #heap(key->rp->index)[#heap(key->rp)[key]] /\ #heap(l_x4a->ht[]->data->dot)[#heap(l_x4a->ht[]->data)[off #l_x4a->tbl i]] = #heap(key->dot)[key])
loop 1
before: assert { forall i. 0 <= i < #l_x4a->count -> (#heap(l_x4a->ht[]->data->rp->index)[#heap(l_x4a->ht[]->data->rp)[#heap(l_x4a->ht[]->data)[off #l_x4a->tbl i]]] = #heap(key->rp->index)[#heap(key->rp)[key]] /\ #heap(l_x4a->ht[]->data->dot)[#heap(l_x4a->ht[]->data)[off #l_x4a->tbl i]] = #heap(key->dot)[key]) -> hv i = #heap(key->rp->index)[#heap(key->rp)[key]] * 37 + #heap(key->dot)[key] /\ bk #l_x4a->size i = h };
inv at: (np = 0 /\ forall k. 0 <= k < #l_x4a->count -> not (#heap(l_x4a->ht[]->data->rp->index)[#heap(l_x4a->ht[]->data->rp)[#heap(l_x4a->ht[]->data)[off #l_x4a->tbl k]]] = #heap(key->rp->index)[#heap(key->rp)[key]] /\ #heap(l_x4a->ht[]->data->dot)[#heap(l_x4a->ht[]->data)[off #l_x4a->tbl k]] = #heap(key->dot)[key])) \/ exists j. 0 <= j < #l_x4a->count /\ np = off #l_x4a->tbl j /\ bk #l_x4a->size j = h /\ forall k. j < k < #l_x4a->count -> not (#heap(l_x4a->ht[]->data->rp->index)[#heap(l_x4a->ht[]->data->rp)[#heap(l_x4a->ht[]->data)[off #l_x4a->tbl k]]] = #heap(key->rp->index)[#heap(key->rp)[key]] /\ #heap(l_x4a->ht[]->data->dot)[#heap(l_x4a->ht[]->data)[off #l_x4a->tbl k]] = #heap(key->dot)[key])
inv h: 0 <= h < #l_x4a->size
var: if np = 0 then 0 else np - #l_x4a->tbl + 1

== Configtable_insert files=lemon/lemon.c props=L02,L06
singleton lemon:l_
opt deadfields from
use clib.CBits
logic:
 (* hash of the i-th entry, whatever it is *)
 function hv int : int
 function bk int int : int
 axiom bk_def: forall s i [bk s i]. bk s i = band (hv i) (s - 1)
requires table: #l_x4a <> 0 /\ #l_x4a->tbl > 0 /\ #l_x4a->size >= 1 /\ 0 <= #l_x4a->count <= #l_x4a->size /\ #l_x4a->tbl + #l_x4a->size <= #brk(l_x4a->tbl)
requires hashes: (forall i. 0 <= i < #l_x4a->count -> hv i = #heap(data->rp->index)[#heap(data->rp)[#heap(l_x4a->tbl->data)[off #l_x4a->tbl i]]] * 37 + #heap(data->dot)[#heap(l_x4a->tbl->data)[off #l_x4a->tbl i]]) /\ hv #l_x4a->count = #heap(data->rp->index)[#heap(data->rp)[data]] * 37 + #heap(data->dot)[data]
requires chains: (forall i. 0 <= i < #l_x4a->count -> ((#heap(l_x4a->tbl->next)[off #l_x4a->tbl i] = 0 /\ forall k. 0 <= k < i -> bk #l_x4a->size k <> bk #l_x4a->size i) \/ exists j. 0 <= j < i /\ #heap(l_x4a->tbl->next)[off #l_x4a->tbl i] = off #l_x4a->tbl j /\ bk #l_x4a->size j = bk #l_x4a->size i /\ forall k. j < k < i -> bk #l_x4a->size k <> bk #l_x4a->size i))
requires heads: (forall b. 0 <= b < #l_x4a->size -> ((#heap(l_x4a->ht[])[off #l_x4a->ht b] = 0 /\ forall k. 0 <= k < #l_x4a->count -> bk #l_x4a->size k <> b) \/ exists j. 0 <= j < #l_x4a->count /\ #heap(l_x4a->ht[])[off #l_x4a->ht b] = off #l_x4a->tbl j /\ bk #l_x4a->size j = b /\ forall k. j < k < #l_x4a->count -> bk #l_x4a->size k <> b))
ensures full: result = 0 -> #l_x4a->count = old #l_x4a->count /\ #l_x4a->size = old #l_x4a->size /\ #l_x4a->tbl = old #l_x4a->tbl /\ #l_x4a->ht = old #l_x4a->ht /\ exists i. 0 <= i < #l_x4a->count /\ (#heap(data->rp->index)[#heap(data->rp)[#heap(l_x4a->tbl->data)[off #l_x4a->tbl i]]] = #heap(data->rp->index)[#heap(data->rp)[data]] /\ #heap(data->dot)[#heap(l_x4a->tbl->data)[off #l_x4a->tbl i]] = #heap(data->dot)[data])
ensures fresh: result <> 0 -> forall i. 0 <= i < old #l_x4a->count -> not (#heap(data->rp->index)[#heap(data->rp)[#heap(l_x4a->tbl->data)[off #l_x4a->tbl i]]] = #heap(data->rp->index)[#heap(data->rp)[data]] /\ #heap(data->dot)[#heap(l_x4a->tbl->data)[off #l_x4a->tbl i]] = #heap(data->dot)[data])
ensures stored: result <> 0 -> #l_x4a->count = old #l_x4a->count + 1 /\ #heap(l_x4a->tbl->data)[off #l_x4a->tbl (old #l_x4a->count)] = data /\ #heap(l_x4a->tbl->data)[off #l_x4a->tbl (old #l_x4a->count)] = data
ensures kept: forall i. 0 <= i < old #l_x4a->count -> #heap(l_x4a->tbl->data)[off #l_x4a->tbl i] = (old #heap(l_x4a->tbl->data))[off (old #l_x4a->tbl) i]
ensures table: #l_x4a = old #l_x4a /\ #l_x4a->tbl > 0 /\ #l_x4a->size >= 1 /\ 0 <= #l_x4a->count <= #l_x4a->size /\ #l_x4a->tbl + #l_x4a->size <= #brk(l_x4a->tbl)
ensures chains: (forall i. 0 <= i < #l_x4a->count -> ((#heap(l_x4a->tbl->next)[off #l_x4a->tbl i] = 0 /\ forall k. 0 <= k < i -> bk #l_x4a->size k <> bk #l_x4a->size i) \/ exists j. 0 <= j < i /\ #heap(l_x4a->tbl->next)[off #l_x4a->tbl i] = off #l_x4a->tbl j /\ bk #l_x4a->size j = bk #l_x4a->size i /\ forall k. j < k < i -> bk #l_x4a->size k <> bk #l_x4a->size i))
ensures heads: (forall b. 0 <= b < #l_x4a->size -> ((#heap(l_x4a->ht[])[off #l_x4a->ht b] = 0 /\ forall k. 0 <= k < #l_x4a->count -> bk #l_x4a->size k <> b) \/ exists j. 0 <= j < #l_x4a->count /\ #heap(l_x4a->ht[])[off #l_x4a->ht b] = off #l_x4a->tbl j /\ bk #l_x4a->size j = b /\ forall k. j < k < #l_x4a->count -> bk #l_x4a->size k <> b))
loop 1
before: assert { forall i. 0 <= i < #l_x4a->count -> (#heap(data->rp->index)[#heap(data->rp)[#heap(l_x4a->tbl->data)[off #l_x4a->tbl i]]] = #heap(data->rp->index)[#heap(data->rp)[data]] /\ #heap(data->dot)[#heap(l_x4a->tbl->data)[off #l_x4a->tbl i]] = #heap(data->dot)[data]) -> hv i = #heap(data->rp->index)[#heap(data->rp)[data]] * 37 + #heap(data->dot)[data] /\ bk #l_x4a->size i = h };
inv at: (np = 0 /\ forall k. 0 <= k < #l_x4a->count -> not (#heap(data->rp->index)[#heap(data->rp)[#heap(l_x4a->tbl->data)[off #l_x4a->tbl k]]] = #heap(data->rp->index)[#heap(data->rp)[data]] /\ #heap(data->dot)[#heap(l_x4a->tbl->data)[off #l_x4a->tbl k]] = #heap(data->dot)[data])) \/ exists j. 0 <= j < #l_x4a->count /\ np = off #l_x4a->tbl j /\ bk #l_x4a->size j = h /\ forall k. j < k < #l_x4a->count -> not (#heap(data->rp->index)[#heap(data->rp)[#heap(l_x4a->tbl->data)[off #l_x4a->tbl k]]] = #heap(data->rp->index)[#heap(data->rp)[data]] /\ #heap(data->dot)[#heap(l_x4a->tbl->data)[off #l_x4a->tbl k]] = #heap(data->dot)[data])
inv h: 0 <= h < #l_x4a->size
var: if np = 0 then 0 else np - #l_x4a->tbl + 1
after: assert { forall k. 0 <= k < #l_x4a->count -> not (#heap(data->rp->index)[#heap(data->rp)[#heap(l_x4a->tbl->data)[off #l_x4a->tbl k]]] = #heap(data->rp->index)[#heap(data->rp)[data]] /\ #heap(data->dot)[#heap(l_x4a->tbl->data)[off #l_x4a->tbl k]] = #heap(data->dot)[data]) };
loop 2
inv i: 0 <= i <= arrSize
inv clear: forall b. 0 <= b < i -> #heap(array->ht[])[off #array->ht b] = 0
var: arrSize - i
loop 3
before: assert { forall i. 0 <= i < #l_x4a->count -> off #l_x4a->tbl i < #array->tbl };
inv i: 0 <= i <= #l_x4a->count
inv old: forall k. 0 <= k < #l_x4a->count -> #heap(l_x4a->tbl->data)[off #l_x4a->tbl k] = (#heap(l_x4a->tbl->data) at L3)[off #l_x4a->tbl k]
inv new: forall k. 0 <= k < i -> #heap(l_x4a->tbl->data)[off #array->tbl k] = (#heap(l_x4a->tbl->data) at L3)[off #l_x4a->tbl k]
inv chains: (forall m. 0 <= m < i -> ((#heap(l_x4a->tbl->next)[off #array->tbl m] = 0 /\ forall k. 0 <= k < m -> bk arrSize k <> bk arrSize m) \/ exists j. 0 <= j < m /\ #heap(l_x4a->tbl->next)[off #array->tbl m] = off #array->tbl j /\ bk arrSize j = bk arrSize m /\ forall k. j < k < m -> bk arrSize k <> bk arrSize m))
inv heads: (forall b. 0 <= b < arrSize -> ((#heap(l_x4a->ht[])[off #array->ht b] = 0 /\ forall k. 0 <= k < i -> bk arrSize k <> b) \/ exists j. 0 <= j < i /\ #heap(l_x4a->ht[])[off #array->ht b] = off #array->tbl j /\ bk arrSize j = b /\ forall k. j < k < i -> bk arrSize k <> b))
var: #l_x4a->count - i
body: assert { #heap(data->rp->index)[#heap(data->rp)[#heap(l_x4a->tbl->data)[off #l_x4a->tbl i]]] * 37 + #heap(data->dot)[#heap(l_x4a->tbl->data)[off #l_x4a->tbl i]] = hv i };
store h#3: assert { 0 <= h < #l_x4a->size /\ #l_x4a->count < #l_x4a->size };
 assert { bk #l_x4a->size #l_x4a->count = h };
 assert { (forall i. 0 <= i < #l_x4a->count -> ((#heap(l_x4a->tbl->next)[off #l_x4a->tbl i] = 0 /\ forall k. 0 <= k < i -> bk #l_x4a->size k <> bk #l_x4a->size i) \/ exists j. 0 <= j < i /\ #heap(l_x4a->tbl->next)[off #l_x4a->tbl i] = off #l_x4a->tbl j /\ bk #l_x4a->size j = bk #l_x4a->size i /\ forall k. j < k < i -> bk #l_x4a->size k <> bk #l_x4a->size i)) };
 assert { (forall b. 0 <= b < #l_x4a->size -> ((#heap(l_x4a->ht[])[off #l_x4a->ht b] = 0 /\ forall k. 0 <= k < #l_x4a->count -> bk #l_x4a->size k <> b) \/ exists j. 0 <= j < #l_x4a->count /\ #heap(l_x4a->ht[])[off #l_x4a->ht b] = off #l_x4a->tbl j /\ bk #l_x4a->size j = b /\ forall k. j < k < #l_x4a->count -> bk #l_x4a->size k <> b)) };

== statehash files=lemon/lemon.c props=L02,L06
use hashes.KSeq
requires list: exists n. isk #heap(a->bp) a n
ensures value: result = khash #heap(a->bp) #heap(a->rp) #heap(a->rp->index) #heap(a->dot) a
ghost let ref gk = 0 in
loop 1
inv at: 0 <= gk <= klen #heap(a->bp) (a at L1) /\ a = kn #heap(a->bp) (a at L1) gk
inv h: h = kh #heap(a->bp) #heap(a->rp) #heap(a->rp->index) #heap(a->dot) (a at L1) gk
body: assert { kn #heap(a->bp) (a at L1) (gk + 1) = kn #heap(a->bp) (a at L1) (gk + 1) };
after_body: gk <- gk + 1
var: klen #heap(a->bp) (a at L1) - gk

== State_find files=lemon/lemon.c props=L02,L06
singleton lemon:l_
use clib.CBits
use hashes.KSeq
logic:
 (* hash of the i-th entry, whatever it is *)
 function hv int : int
 function bk int int : int
 axiom bk_def: forall s i [bk s i]. bk s i = band (hv i) (s - 1)
requires table: #l_x3a <> 0 /\ #l_x3a->tbl > 0 /\ #l_x3a->size >= 1 /\ #l_x3a->count >= 0
requires kernels: (exists n. isk #heap(key->bp) key n) /\ forall i. 0 <= i < #l_x3a->count -> exists n. isk #heap(l_x3a->ht[]->key->bp) (#heap(l_x3a->ht[]->key)[off #l_x3a->tbl i]) n
requires hashes: forall i. 0 <= i < #l_x3a->count -> hv i = khash #heap(l_x3a->ht[]->key->bp) #heap(l_x3a->ht[]->key->rp) #heap(l_x3a->ht[]->key->rp->index) #heap(l_x3a->ht[]->key->dot) #heap(l_x3a->ht[]->key)[off #l_x3a->tbl i]
requires used: forall i. 0 <= i < #l_x3a->count -> #heap(l_x3a->ht[]->data)[off #l_x3a->tbl i] <> 0
requires chains: (forall i. 0 <= i < #l_x3a->count -> ((#heap(l_x3a->ht[]->next)[off #l_x3a->tbl i] = 0 /\ forall k. 0 <= k < i -> bk #l_x3a->size k <> bk #l_x3a->size i) \/ exists j. 0 <= j < i /\ #heap(l_x3a->ht[]->next)[off #l_x3a->tbl i] = off #l_x3a->tbl j /\ bk #l_x3a->size j = bk #l_x3a->size i /\ forall k. j < k < i -> bk #l_x3a->size k <> bk #l_x3a->size i))
requires heads: (forall b. 0 <= b < #l_x3a->size -> ((#heap(l_x3a->ht[])[off #l_x3a->ht b] = 0 /\ forall k. 0 <= k < #l_x3a->count -> bk #l_x3a->size k <> b) \/ exists j. 0 <= j < #l_x3a->count /\ #heap(l_x3a->ht[])[off #l_x3a->ht b] = off #l_x3a->tbl j /\ bk #l_x3a->size j = b /\ forall k. j < k < #l_x3a->count -> bk #l_x3a->size k <> b))
ensures found: result <> 0 -> exists i. 0 <= i < #l_x3a->count /\ result = #heap(l_x3a->ht[]->data)[off #l_x3a->tbl i] /\ keq #heap(l_x3a->ht[]->key->bp) #heap(l_x3a->ht[]->key->rp) #heap(l_x3a->ht[]->key->rp->index) #heap(l_x3a->ht[]->key->dot) (#heap(l_x3a->ht[]->key)[off #l_x3a->tbl i]) #heap(key->bp) #heap(key->rp) #heap(key->rp->index) #heap(key->dot) key
ensures missing: result = 0 -> forall i. 0 <= i < #l_x3a->count -> not keq #heap(l_x3a->ht[]->key->bp) #heap(l_x3a->ht[]->key->rp) #heap(l_x3a->ht[]->key->rp->index) #heap(l_x3a->ht[]->key->dot) (#heap(l_x3a->ht[]->key)[off #l_x3a->tbl i]) #heap(key->bp) #heap(key->rp) #heap(key->rp->index) #heap(key->dot) key
loop 1
before: assert { forall i. 0 <= i < #l_x3a->count -> keq #heap(l_x3a->ht[]->key->bp) #heap(l_x3a->ht[]->key->rp) #heap(l_x3a->ht[]->key->rp->index) #heap(l_x3a->ht[]->key->dot) (#heap(l_x3a->ht[]->key)[off #l_x3a->tbl i]) #heap(key->bp) #heap(key->rp) #heap(key->rp->index) #heap(key->dot) key -> hv i = khash #heap(key->bp) #heap(key->rp) #heap(key->rp->index) #heap(key->dot) key /\ bk #l_x3a->size i = h };
inv at: (np = 0 /\ forall k. 0 <= k < #l_x3a->count -> not keq #heap(l_x3a->ht[]->key->bp) #heap(l_x3a->ht[]->key->rp) #heap(l_x3a->ht[]->key->rp->index) #heap(l_x3a->ht[]->key->dot) (#heap(l_x3a->ht[]->key)[off #l_x3a->tbl k]) #heap(key->bp) #heap(key->rp) #heap(key->rp->index) #heap(key->dot) key) \/ exists j. 0 <= j < #l_x3a->count /\ np = off #l_x3a->tbl j /\ bk #l_x3a->size j = h /\ forall k. j < k < #l_x3a->count -> not keq #heap(l_x3a->ht[]->key->bp) #heap(l_x3a->ht[]->key->rp) #heap(l_x3a->ht[]->key->rp->index) #heap(l_x3a->ht[]->key->dot) (#heap(l_x3a->ht[]->key)[off #l_x3a->tbl k]) #heap(key->bp) #heap(key->rp) #heap(key->rp->index) #heap(key->dot) key
inv h: 0 <= h < #l_x3a->size
var: if np = 0 then 0 else np - #l_x3a->tbl + 1

== State_insert files=lemon/lemon.c props=L02,L06
singleton lemon:l_
opt deadfields from
use clib.CBits
use hashes.KSeq
logic:
 (* hash of the i-th entry, whatever it is *)
 function hv int : int
 function bk int int : int
 axiom bk_def: forall s i [bk s i]. bk s i = band (hv i) (s - 1)
requires table: #l_x3a <> 0 /\ #l_x3a->tbl > 0 /\ #l_x3a->size >= 1 /\ 0 <= #l_x3a->count <= #l_x3a->size /\ #l_x3a->tbl + #l_x3a->size <= #brk(l_x3a->tbl)
requires kernels: (exists n. isk #heap(key->bp) key n) /\ forall i. 0 <= i < #l_x3a->count -> exists n. isk #heap(key->bp) (#heap(l_x3a->tbl->key)[off #l_x3a->tbl i]) n
requires hashes: (forall i. 0 <= i < #l_x3a->count -> hv i = khash #heap(key->bp) #heap(key->rp) #heap(key->rp->index) #heap(key->dot) #heap(l_x3a->tbl->key)[off #l_x3a->tbl i]) /\ hv #l_x3a->count = khash #heap(key->bp) #heap(key->rp) #heap(key->rp->index) #heap(key->dot) key
requires chains: (forall i. 0 <= i < #l_x3a->count -> ((#heap(l_x3a->tbl->next)[off #l_x3a->tbl i] = 0 /\ forall k. 0 <= k < i -> bk #l_x3a->size k <> bk #l_x3a->size i) \/ exists j. 0 <= j < i /\ #heap(l_x3a->tbl->next)[off #l_x3a->tbl i] = off #l_x3a->tbl j /\ bk #l_x3a->size j = bk #l_x3a->size i /\ forall k. j < k < i -> bk #l_x3a->size k <> bk #l_x3a->size i))
requires heads: (forall b. 0 <= b < #l_x3a->size -> ((#heap(l_x3a->ht[])[off #l_x3a->ht b] = 0 /\ forall k. 0 <= k < #l_x3a->count -> bk #l_x3a->size k <> b) \/ exists j. 0 <= j < #l_x3a->count /\ #heap(l_x3a->ht[])[off #l_x3a->ht b] = off #l_x3a->tbl j /\ bk #l_x3a->size j = b /\ forall k. j < k < #l_x3a->count -> bk #l_x3a->size k <> b))
ensures full: result = 0 -> #l_x3a->count = old #l_x3a->count /\ #l_x3a->size = old #l_x3a->size /\ #l_x3a->tbl = old #l_x3a->tbl /\ #l_x3a->ht = old #l_x3a->ht /\ exists i. 0 <= i < #l_x3a->count /\ keq #heap(key->bp) #heap(key->rp) #heap(key->rp->index) #heap(key->dot) (#heap(l_x3a->tbl->key)[off #l_x3a->tbl i]) #heap(key->bp) #heap(key->rp) #heap(key->rp->index) #heap(key->dot) key
ensures fresh: result <> 0 -> forall i. 0 <= i < old #l_x3a->count -> not keq #heap(key->bp) #heap(key->rp) #heap(key->rp->index) #heap(key->dot) (#heap(l_x3a->tbl->key)[off #l_x3a->tbl i]) #heap(key->bp) #heap(key->rp) #heap(key->rp->index) #heap(key->dot) key
ensures stored: result <> 0 -> #l_x3a->count = old #l_x3a->count + 1 /\ #heap(l_x3a->tbl->key)[off #l_x3a->tbl (old #l_x3a->count)] = key /\ #heap(l_x3a->tbl->data)[off #l_x3a->tbl (old #l_x3a->count)] = data
ensures kept: forall i. 0 <= i < old #l_x3a->count -> #heap(l_x3a->tbl->data)[off #l_x3a->tbl i] = (old #heap(l_x3a->tbl->data))[off (old #l_x3a->tbl) i] /\ #heap(l_x3a->tbl->key)[off #l_x3a->tbl i] = (old #heap(l_x3a->tbl->key))[off (old #l_x3a->tbl) i]
ensures table: #l_x3a = old #l_x3a /\ #l_x3a->tbl > 0 /\ #l_x3a->size >= 1 /\ 0 <= #l_x3a->count <= #l_x3a->size /\ #l_x3a->tbl + #l_x3a->size <= #brk(l_x3a->tbl)
ensures chains: (forall i. 0 <= i < #l_x3a->count -> ((#heap(l_x3a->tbl->next)[off #l_x3a->tbl i] = 0 /\ forall k. 0 <= k < i -> bk #l_x3a->size k <> bk #l_x3a->size i) \/ exists j. 0 <= j < i /\ #heap(l_x3a->tbl->next)[off #l_x3a->tbl i] = off #l_x3a->tbl j /\ bk #l_x3a->size j = bk #l_x3a->size i /\ forall k. j < k < i -> bk #l_x3a->size k <> bk #l_x3a->size i))
ensures heads: (forall b. 0 <= b < #l_x3a->size -> ((#heap(l_x3a->ht[])[off #l_x3a->ht b] = 0 /\ forall k. 0 <= k < #l_x3a->count -> bk #l_x3a->size k <> b) \/ exists j. 0 <= j < #l_x3a->count /\ #heap(l_x3a->ht[])[off #l_x3a->ht b] = off #l_x3a->tbl j /\ bk #l_x3a->size j = b /\ forall k. j < k < #l_x3a->count -> bk #l_x3a->size k <> b))
loop 1
before: assert { forall i. 0 <= i < #l_x3a->count -> keq #heap(key->bp) #heap(key->rp) #heap(key->rp->index) #heap(key->dot) (#heap(l_x3a->tbl->key)[off #l_x3a->tbl i]) #heap(key->bp) #heap(key->rp) #heap(key->rp->index) #heap(key->dot) key -> hv i = khash #heap(key->bp) #heap(key->rp) #heap(key->rp->index) #heap(key->dot) key /\ bk #l_x3a->size i = h };
inv at: (np = 0 /\ forall k. 0 <= k < #l_x3a->count -> not keq #heap(key->bp) #heap(key->rp) #heap(key->rp->index) #heap(key->dot) (#heap(l_x3a->tbl->key)[off #l_x3a->tbl k]) #heap(key->bp) #heap(key->rp) #heap(key->rp->index) #heap(key->dot) key) \/ exists j. 0 <= j < #l_x3a->count /\ np = off #l_x3a->tbl j /\ bk #l_x3a->size j = h /\ forall k. j < k < #l_x3a->count -> not keq #heap(key->bp) #heap(key->rp) #heap(key->rp->index) #heap(key->dot) (#heap(l_x3a->tbl->key)[off #l_x3a->tbl k]) #heap(key->bp) #heap(key->rp) #heap(key->rp->index) #heap(key->dot) key
inv h: 0 <= h < #l_x3a->size
var: if np = 0 then 0 else np - #l_x3a->tbl + 1
after: assert { forall k. 0 <= k < #l_x3a->count -> not keq #heap(key->bp) #heap(key->rp) #heap(key->rp->index) #heap(key->dot) (#heap(l_x3a->tbl->key)[off #l_x3a->tbl k]) #heap(key->bp) #heap(key->rp) #heap(key->rp->index) #heap(key->dot) key };
loop 2
inv i: 0 <= i <= arrSize
inv clear: forall b. 0 <= b < i -> #heap(array->ht[])[off #array->ht b] = 0
var: arrSize - i
loop 3
before: assert { forall i. 0 <= i < #l_x3a->count -> off #l_x3a->tbl i < #array->tbl };
inv i: 0 <= i <= #l_x3a->count
inv old: forall k. 0 <= k < #l_x3a->count -> #heap(l_x3a->tbl->data)[off #l_x3a->tbl k] = (#heap(l_x3a->tbl->data) at L3)[off #l_x3a->tbl k] /\ #heap(l_x3a->tbl->key)[off #l_x3a->tbl k] = (#heap(l_x3a->tbl->key) at L3)[off #l_x3a->tbl k]
inv new: forall k. 0 <= k < i -> #heap(l_x3a->tbl->data)[off #array->tbl k] = (#heap(l_x3a->tbl->data) at L3)[off #l_x3a->tbl k] /\ #heap(l_x3a->tbl->key)[off #array->tbl k] = (#heap(l_x3a->tbl->key) at L3)[off #l_x3a->tbl k]
inv chains: (forall m. 0 <= m < i -> ((#heap(l_x3a->tbl->next)[off #array->tbl m] = 0 /\ forall k. 0 <= k < m -> bk arrSize k <> bk arrSize m) \/ exists j. 0 <= j < m /\ #heap(l_x3a->tbl->next)[off #array->tbl m] = off #array->tbl j /\ bk arrSize j = bk arrSize m /\ forall k. j < k < m -> bk arrSize k <> bk arrSize m))
inv heads: (forall b. 0 <= b < arrSize -> ((#heap(l_x3a->ht[])[off #array->ht b] = 0 /\ forall k. 0 <= k < i -> bk arrSize k <> b) \/ exists j. 0 <= j < i /\ #heap(l_x3a->ht[])[off #array->ht b] = off #array->tbl j /\ bk arrSize j = b /\ forall k. j < k < i -> bk arrSize k <> b))
var: #l_x3a->count - i
body: assert { khash #heap(key->bp) #heap(key->rp) #heap(key->rp->index) #heap(key->dot) #heap(l_x3a->tbl->key)[off #l_x3a->tbl i] = hv i };
store h#3: assert { 0 <= h < #l_x3a->size /\ #l_x3a->count < #l_x3a->size };
 assert { bk #l_x3a->size #l_x3a->count = h };
 assert { (forall i. 0 <= i < #l_x3a->count -> ((#heap(l_x3a->tbl->next)[off #l_x3a->tbl i] = 0 /\ forall k. 0 <= k < i -> bk #l_x3a->size k <> bk #l_x3a->size i) \/ exists j. 0 <= j < i /\ #heap(l_x3a->tbl->next)[off #l_x3a->tbl i] = off #l_x3a->tbl j /\ bk #l_x3a->size j = bk #l_x3a->size i /\ forall k. j < k < i -> bk #l_x3a->size k <> bk #l_x3a->size i)) };
 assert { (forall b. 0 <= b < #l_x3a->size -> ((#heap(l_x3a->ht[])[off #l_x3a->ht b] = 0 /\ forall k. 0 <= k < #l_x3a->count -> bk #l_x3a->size k <> b) \/ exists j. 0 <= j < #l_x3a->count /\ #heap(l_x3a->ht[])[off #l_x3a->ht b] = off #l_x3a->tbl j /\ bk #l_x3a->size j = b /\ forall k. j < k < #l_x3a->count -> bk #l_x3a->size k <> b)) };

== Configtable_clear files=lemon/lemon.c props=L02,L06
singleton lemon:l_
requires table: #l_x4a <> 0 /\ #l_x4a->size >= 1 /\ #l_x4a->count >= 0
requires nofunction: f = 0
fnptr none
opt dead 1
ensures empty: #l_x4a->count = 0 /\ #l_x4a = old #l_x4a /\ #l_x4a->size = old #l_x4a->size
ensures heads: old #l_x4a->count <> 0 -> forall b. 0 <= b < #l_x4a->size -> #heap(l_x4a->ht[])[off #l_x4a->ht b] = 0
loop 1
inv i: i = i
loop 2
inv i: 0 <= i <= #l_x4a->size
inv clear: forall b. 0 <= b < i -> #heap(l_x4a->ht[])[off #l_x4a->ht b] = 0
var: #l_x4a->size - i
