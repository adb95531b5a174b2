== merge files=lemon/lemon.c props=L05
opt nextat offset
opt fnptr cmpf
use links.Links
ghost let ha = a in
ghost let hb = b in
ghost let ref ga = lof #heap(a->nx) a in
ghost let ref gb = lof #heap(a->nx) b in
ghost let ha = a in
ghost let hb = b in
ghost let ref gacc = Nil in
ghost let ref gx = a in
ghost let ref gp = 0 in
ghost let ref gd = 0 in
requires lists: isl #heap(a->nx) a (lof #heap(a->nx) a) /\ isl #heap(a->nx) b (lof #heap(a->nx) b)
requires distinct: dist (lof #heap(a->nx) a) /\ dist (lof #heap(a->nx) b) /\ forall x. mem x (lof #heap(a->nx) a) -> not (mem x (lof #heap(a->nx) b))
ensures list: isl #heap(a->nx) result (lof #heap(a->nx) result) /\ dist (lof #heap(a->nx) result)
ensures elements: forall x. mem x (lof #heap(a->nx) result) <-> mem x (lof (old #heap(a->nx)) (old a)) \/ mem x (lof (old #heap(a->nx)) (old b))
ensures length: ln (lof #heap(a->nx) result) = ln (lof (old #heap(a->nx)) (old a)) + ln (lof (old #heap(a->nx)) (old b))
ensures sorted: sorted (lof (old #heap(a->nx)) (old a)) -> sorted (lof (old #heap(a->nx)) (old b)) -> sorted (lof #heap(a->nx) result)
ensures others: forall x. not (mem x (lof (old #heap(a->nx)) (old a))) -> not (mem x (lof (old #heap(a->nx)) (old b))) -> #heap(a->nx)[x] = (old #heap(a->nx))[x]
loop 1
before: assert { ga = Cons ha (tl ga) /\ gb = Cons hb (tl gb) };
 if ptr = gx then ga <- tl ga else gb <- tl gb;
inv shape: seg #heap(a->nx) head gacc ptr /\ ptr <> 0 /\ isl #heap(a->nx) a ga /\ isl #heap(a->nx) b gb
inv distinct: dist gacc /\ dist ga /\ dist gb
inv length: ln gacc + 1 + ln ga + ln gb = ln (lof (old #heap(a->nx)) ha) + ln (lof (old #heap(a->nx)) hb)
inv apart: (forall x. mem x gacc -> x <> ptr /\ not (mem x ga) /\ not (mem x gb))
inv apart-last: not (mem ptr ga) /\ not (mem ptr gb)
inv apart-rest: (forall x. mem x ga -> not (mem x gb))
inv elements: forall x. (mem x gacc \/ x = ptr \/ mem x ga \/ mem x gb) <-> mem x (lof (old #heap(a->nx)) ha) \/ mem x (lof (old #heap(a->nx)) hb)
inv sorted: sorted (lof (old #heap(a->nx)) ha) -> sorted (lof (old #heap(a->nx)) hb) -> sorted gacc /\ sorted ga /\ sorted gb
inv sorted-last: sorted (lof (old #heap(a->nx)) ha) -> sorted (lof (old #heap(a->nx)) hb) -> (forall x. mem x gacc -> cmpf x ptr <= 0)
inv sorted-rest: sorted (lof (old #heap(a->nx)) ha) -> sorted (lof (old #heap(a->nx)) hb) -> (forall x y. (mem x gacc \/ x = ptr) -> mem y ga \/ mem y gb -> cmpf x y <= 0)
inv others: forall x. not (mem x (lof (old #heap(a->nx)) ha)) -> not (mem x (lof (old #heap(a->nx)) hb)) -> #heap(a->nx)[x] = (old #heap(a->nx))[x]
body: gp <- ptr; gx <- a; assert { ga = Cons a (tl ga) /\ gb = Cons b (tl gb) };
 assert { sorted ga -> sorted gb -> (cmpf a b <= 0 -> forall y. mem y gb -> cmpf a y <= 0) /\ (cmpf a b > 0 -> forall y. mem y ga -> cmpf b y <= 0) };
after_body: assert { seg #heap(a->nx) head gacc gp /\ #heap(a->nx)[gp] = ptr };
 assert { seg #heap(a->nx) gp (Cons gp Nil) ptr };
 assert { forall x. mem x gacc -> x <> gp };
 gacc <- appc gacc (Cons gp Nil);
 if ptr = gx then ga <- tl ga else gb <- tl gb;
after: gd <- 1;
exit: assert { gd = 1 -> (a = 0 -> ga = Nil /\ app ga gb = gb) /\ (b = 0 -> gb = Nil /\ app ga gb = ga) };
 assert { gd = 1 -> #heap(a->nx)[ptr] = (if ga = Nil then b else a) };
 assert { gd = 1 -> isl #heap(a->nx) a ga /\ isl #heap(a->nx) b gb /\ seg #heap(a->nx) head gacc ptr };
 assert { gd = 1 -> isl #heap(a->nx) ptr (Cons ptr (app ga gb)) };
 assert { gd = 0 -> ha = 0 -> lof (old #heap(a->nx)) ha = Nil /\ #heap(a->nx) = old #heap(a->nx) /\ head = hb };
 assert { gd = 0 -> hb = 0 -> lof (old #heap(a->nx)) hb = Nil /\ #heap(a->nx) = old #heap(a->nx) /\ head = (if ha = 0 then hb else ha) };
 assert { gd = 1 -> ga = Nil \/ gb = Nil };
 assert { gd = 1 -> isl #heap(a->nx) head (app gacc (Cons ptr (app ga gb))) };

== msort files=lemon/lemon.c props=L05
opt nextat offset
opt fnptr cmpf
use links.Links
requires list: isl #heap(list->nx) list (lof #heap(list->nx) list) /\ dist (lof #heap(list->nx) list) /\ ln (lof #heap(list->nx) list) < pw 29
ensures list: isl #heap(list->nx) result (lof #heap(list->nx) result) /\ dist (lof #heap(list->nx) result)
ensures elements: forall x. mem x (lof #heap(list->nx) result) <-> mem x (lof (old #heap(list->nx)) (old list))
ensures sorted: sorted (lof #heap(list->nx) result)
ensures others: forall x. not (mem x (lof (old #heap(list->nx)) (old list))) -> #heap(list->nx)[x] = (old #heap(list->nx))[x]
ghost let hl = list in
ghost let h0 = lof #heap(list->nx) list in
ghost let ref gl = h0 in
ghost let ref go : map int int = (fun x -> if memb x h0 then 30 else -1) in
ghost let ref gn : map int int = #heap(list->nx) in
ghost let ref gc = 0 in
loop 1
inv i: 0 <= i <= 30 /\ forall j. 0 <= j < i -> #set_[j] = 0
inv same: #heap(list->nx) = old #heap(list->nx) /\ list = hl /\ gl = h0
loop 2
inv rest: isl #heap(list->nx) list gl /\ dist gl /\ forall x. mem x gl <-> go[x] = 30
inv lists: forall j. 0 <= j < 30 -> isl #heap(list->nx) #set_[j] (lof #heap(list->nx) #set_[j]) /\ dist (lof #heap(list->nx) #set_[j])
inv owner: forall j x. 0 <= j < 30 -> (mem x (lof #heap(list->nx) #set_[j]) <-> go[x] = j)
inv sorted: forall j. 0 <= j < 30 -> sorted (lof #heap(list->nx) #set_[j])
inv size: forall j. 0 <= j < 30 -> #set_[j] <> 0 -> ln (lof #heap(list->nx) #set_[j]) = pw j
inv all: forall x. go[x] <= 30 /\ (mem x h0 <-> 0 <= go[x])
inv others: forall x. not (mem x h0) -> #heap(list->nx)[x] = (old #heap(list->nx))[x]
body: gl <- tl gl; go <- mset go list 31; gn <- #heap(list->nx);
loop 3
before: assert { forall j. 0 <= j < 30 -> isl #heap(list->nx) #set_[j] (lof gn #set_[j]) };
 assert { isl #heap(list->nx) ep (Cons ep Nil) };
inv i: 0 <= i <= 29
inv rest: isl #heap(list->nx) list gl /\ dist gl /\ forall x. mem x gl <-> go[x] = 30
inv lists: forall j. 0 <= j < 30 -> isl #heap(list->nx) #set_[j] (lof #heap(list->nx) #set_[j]) /\ dist (lof #heap(list->nx) #set_[j])
inv owner: forall j x. 0 <= j < 30 -> (mem x (lof #heap(list->nx) #set_[j]) <-> go[x] = j)
inv sorted: forall j. 0 <= j < 30 -> sorted (lof #heap(list->nx) #set_[j])
inv size: forall j. 0 <= j < 30 -> #set_[j] <> 0 -> ln (lof #heap(list->nx) #set_[j]) = pw j
inv all: forall x. go[x] <= 31 /\ (mem x h0 <-> 0 <= go[x])
inv others: forall x. not (mem x h0) -> #heap(list->nx)[x] = (old #heap(list->nx))[x]
inv ep: isl #heap(list->nx) ep (lof #heap(list->nx) ep) /\ dist (lof #heap(list->nx) ep) /\ sorted (lof #heap(list->nx) ep) /\ ln (lof #heap(list->nx) ep) = pw i
inv ep-owner: forall x. mem x (lof #heap(list->nx) ep) <-> go[x] = 31
body: gn <- #heap(list->nx);
after_body: assert { forall j. 0 <= j < 30 -> j <> i -> isl #heap(list->nx) #set_[j] (lof gn #set_[j]) };
 assert { isl #heap(list->nx) list gl };
 go <- (let o = go in let ii = i in fun x -> if o[x] = ii then 31 else o[x]);
after: incl_ln (lof #heap(list->nx) ep) h0;
 assert { i < 29 /\ #set_[i] = 0 };
 go <- (let o = go in let ii = i in fun x -> if o[x] = 31 then ii else o[x]);
loop 4
before: assert { gl = Nil };
inv i: 0 <= i <= 30
inv lists: forall j. i <= j < 30 -> isl #heap(list->nx) #set_[j] (lof #heap(list->nx) #set_[j]) /\ dist (lof #heap(list->nx) #set_[j])
inv owner: forall j x. i <= j < 30 -> (mem x (lof #heap(list->nx) #set_[j]) <-> go[x] = j)
inv sorted: forall j. i <= j < 30 -> sorted (lof #heap(list->nx) #set_[j])
inv all: forall x. go[x] <= 31 /\ go[x] <> 30 /\ (mem x h0 <-> i <= go[x])
inv others: forall x. not (mem x h0) -> #heap(list->nx)[x] = (old #heap(list->nx))[x]
inv ep: isl #heap(list->nx) ep (lof #heap(list->nx) ep) /\ dist (lof #heap(list->nx) ep) /\ sorted (lof #heap(list->nx) ep)
inv ep-owner: forall x. mem x (lof #heap(list->nx) ep) <-> go[x] = 31
body: gn <- #heap(list->nx);
after_body: assert { forall j. i < j < 30 -> isl #heap(list->nx) #set_[j] (lof gn #set_[j]) };
 go <- (let o = go in let ii = i in fun x -> if o[x] = ii then 31 else o[x]);

== Rule_merge files=lemon/lemon.c props=L05
use links.Links
ghost let hA = pA in
ghost let hB = pB in
ghost let ref ga = lof #heap(pA->next) pA in
ghost let ref gb = lof #heap(pA->next) pB in
ghost let ref gacc = Nil in
ghost let ref gx = 0 in
ghost let ref gz = 0 in
ghost let ref gp = 0 in
requires key: forall x y. cmpf x y <= 0 <-> #heap(pA->iRule)[x] <= #heap(pA->iRule)[y]
requires lists: isl #heap(pA->next) pA (lof #heap(pA->next) pA) /\ isl #heap(pA->next) pB (lof #heap(pA->next) pB) /\ (forall x. mem x (lof #heap(pA->next) pA) \/ mem x (lof #heap(pA->next) pB) -> x > 0)
requires distinct: dist (lof #heap(pA->next) pA) /\ dist (lof #heap(pA->next) pB) /\ forall x. mem x (lof #heap(pA->next) pA) -> not (mem x (lof #heap(pA->next) pB))
ensures list: isl #heap(pA->next) result (lof #heap(pA->next) result) /\ dist (lof #heap(pA->next) result)
ensures elements: forall x. mem x (lof #heap(pA->next) result) <-> mem x (lof (old #heap(pA->next)) (old pA)) \/ mem x (lof (old #heap(pA->next)) (old pB))
ensures length: ln (lof #heap(pA->next) result) = ln (lof (old #heap(pA->next)) (old pA)) + ln (lof (old #heap(pA->next)) (old pB))
ensures sorted: sorted (lof (old #heap(pA->next)) (old pA)) -> sorted (lof (old #heap(pA->next)) (old pB)) -> sorted (lof #heap(pA->next) result)
ensures others: forall x. not (mem x (lof (old #heap(pA->next)) (old pA))) -> not (mem x (lof (old #heap(pA->next)) (old pB))) -> #heap(pA->next)[x] = (old #heap(pA->next))[x]
loop 1
inv last: pFirst > 0 /\ (if gz = 0 then gacc = Nil /\ ppPrev = pFirst else ppPrev = - gz /\ seg #heap(pA->next) #pFirst[] gacc gz) /\ gz >= 0
inv rest: isl #heap(pA->next) pA ga /\ isl #heap(pA->next) pB gb
inv distinct: dist gacc /\ dist ga /\ dist gb
inv length: ln gacc + (if gz = 0 then 0 else 1) + ln ga + ln gb = ln (lof (old #heap(pA->next)) hA) + ln (lof (old #heap(pA->next)) hB)
inv apart: (forall x. mem x gacc -> x <> gz /\ not (mem x ga) /\ not (mem x gb))
inv apart-last: not (mem gz ga) /\ not (mem gz gb)
inv apart-rest: (forall x. mem x ga -> not (mem x gb))
inv elements: forall x. (mem x gacc \/ (x = gz /\ gz <> 0) \/ mem x ga \/ mem x gb) <-> mem x (lof (old #heap(pA->next)) hA) \/ mem x (lof (old #heap(pA->next)) hB)
inv sorted: sorted (lof (old #heap(pA->next)) hA) -> sorted (lof (old #heap(pA->next)) hB) -> sorted gacc /\ sorted ga /\ sorted gb
inv sorted-last: sorted (lof (old #heap(pA->next)) hA) -> sorted (lof (old #heap(pA->next)) hB) -> gz <> 0 -> (forall x. mem x gacc -> cmpf x gz <= 0)
inv sorted-rest: sorted (lof (old #heap(pA->next)) hA) -> sorted (lof (old #heap(pA->next)) hB) -> (forall x y. mem x gacc \/ (x = gz /\ gz <> 0) -> mem y ga \/ mem y gb -> cmpf x y <= 0)
inv others: forall x. not (mem x (lof (old #heap(pA->next)) hA)) -> not (mem x (lof (old #heap(pA->next)) hB)) -> #heap(pA->next)[x] = (old #heap(pA->next))[x]
body: gp <- gz; gx <- pA; assert { ga = Cons pA (tl ga) /\ gb = Cons pB (tl gb) };
 assert { pA > 0 /\ pB > 0 };
 assert { sorted ga -> sorted gb -> (cmpf pA pB <= 0 -> forall y. mem y gb -> cmpf pA y <= 0) /\ (cmpf pB pA <= 0 -> forall y. mem y ga -> cmpf pB y <= 0) };
after_body: gz <- - ppPrev;
 assert { forall x. mem x gacc -> x <> gp };
 assert { gp <> 0 -> seg #heap(pA->next) #pFirst[] gacc gp /\ #heap(pA->next)[gp] = gz };
 assert { gp <> 0 -> seg #heap(pA->next) gp (Cons gp Nil) gz };
 if gp <> 0 then gacc <- appc gacc (Cons gp Nil);
 if gz = gx then ga <- tl ga else gb <- tl gb;
exit: assert { (pA = 0 -> ga = Nil /\ app ga gb = gb) /\ (pB = 0 -> gb = Nil /\ app ga gb = ga) };
 assert { gz <> 0 -> #heap(pA->next)[gz] = (if pA = 0 then pB else pA) };
 assert { isl #heap(pA->next) pA ga /\ isl #heap(pA->next) pB gb /\ (gz <> 0 -> seg #heap(pA->next) #pFirst[] gacc gz) };
 assert { gz <> 0 -> isl #heap(pA->next) gz (Cons gz (app ga gb)) };
 assert { gz <> 0 -> isl #heap(pA->next) #pFirst[] (app gacc (Cons gz (app ga gb))) };
 assert { gz = 0 -> isl #heap(pA->next) #pFirst[] (app ga gb) };

== Rule_sort files=lemon/lemon.c props=L05
use links.Links
requires nonnull: #brk(rp) > 0
requires key: forall y z. cmpf y z <= 0 <-> #heap(rp->iRule)[y] <= #heap(rp->iRule)[z]
requires list: isl #heap(rp->next) rp (lof #heap(rp->next) rp) /\ dist (lof #heap(rp->next) rp) /\ ln (lof #heap(rp->next) rp) < pw 31 /\ (forall y. mem y (lof #heap(rp->next) rp) -> y > 0)
ensures list: isl #heap(rp->next) result (lof #heap(rp->next) result) /\ dist (lof #heap(rp->next) result)
ensures elements: forall y. mem y (lof #heap(rp->next) result) <-> mem y (lof (old #heap(rp->next)) (old rp))
ensures sorted: sorted (lof #heap(rp->next) result)
ensures others: forall y. not (mem y (lof (old #heap(rp->next)) (old rp))) -> #heap(rp->next)[y] = (old #heap(rp->next))[y]
ghost let hl = rp in
ghost let h0 = lof #heap(rp->next) rp in
ghost let ref gl = h0 in
ghost let ref go : map int int = (fun y -> if memb y h0 then 32 else -1) in
ghost let ref gn : map int int = #heap(rp->next) in
ghost let ref gc = 0 in
loop 1
inv brk: #brk(rp) > 0 /\ (forall y. mem y h0 -> y > 0)
inv rest: isl #heap(rp->next) rp gl /\ dist gl /\ forall y. mem y gl <-> go[y] = 32
inv lists: forall j. 0 <= j < 32 -> isl #heap(rp->next) #x[j] (lof #heap(rp->next) #x[j]) /\ dist (lof #heap(rp->next) #x[j])
inv owner: forall j y. 0 <= j < 32 -> (mem y (lof #heap(rp->next) #x[j]) <-> go[y] = j)
inv sorted: forall j. 0 <= j < 32 -> sorted (lof #heap(rp->next) #x[j])
inv size: forall j. 0 <= j < 32 -> #x[j] <> 0 -> ln (lof #heap(rp->next) #x[j]) = pw j
inv all: forall y. go[y] <= 32 /\ (mem y h0 <-> 0 <= go[y])
inv others: forall y. not (mem y h0) -> #heap(rp->next)[y] = (old #heap(rp->next))[y]
body: gc <- rp; gl <- tl gl; go <- mset go rp 33; gn <- #heap(rp->next);
loop 2
before: assert { forall j. 0 <= j < 32 -> isl #heap(rp->next) #x[j] (lof gn #x[j]) };
 assert { isl #heap(rp->next) rp (Cons rp Nil) };
inv brk: #brk(rp) > 0 /\ (forall y. mem y h0 -> y > 0)
inv i: 0 <= i <= 31
inv rest: isl #heap(rp->next) pNext gl /\ dist gl /\ forall y. mem y gl <-> go[y] = 32
inv lists: forall j. 0 <= j < 32 -> isl #heap(rp->next) #x[j] (lof #heap(rp->next) #x[j]) /\ dist (lof #heap(rp->next) #x[j])
inv owner: forall j y. 0 <= j < 32 -> (mem y (lof #heap(rp->next) #x[j]) <-> go[y] = j)
inv sorted: forall j. 0 <= j < 32 -> sorted (lof #heap(rp->next) #x[j])
inv size: forall j. 0 <= j < 32 -> #x[j] <> 0 -> ln (lof #heap(rp->next) #x[j]) = pw j
inv all: forall y. go[y] <= 33 /\ (mem y h0 <-> 0 <= go[y])
inv others: forall y. not (mem y h0) -> #heap(rp->next)[y] = (old #heap(rp->next))[y]
inv ep: isl #heap(rp->next) rp (lof #heap(rp->next) rp) /\ dist (lof #heap(rp->next) rp) /\ sorted (lof #heap(rp->next) rp) /\ ln (lof #heap(rp->next) rp) = pw i
inv ep-owner: forall y. mem y (lof #heap(rp->next) rp) <-> go[y] = 33
body: gn <- #heap(rp->next);
after_body: assert { forall j. 0 <= j < 32 -> j <> i -> isl #heap(rp->next) #x[j] (lof gn #x[j]) };
 assert { isl #heap(rp->next) pNext gl };
 go <- (let o = go in let ii = i in fun y -> if o[y] = ii then 33 else o[y]);
after: incl_ln (lof #heap(rp->next) rp) h0;
 assert { i < 31 /\ #x[i] = 0 };
 go <- (let o = go in let ii = i in fun y -> if o[y] = 33 then ii else o[y]);
loop 3
before: assert { gl = Nil };
inv brk: #brk(rp) > 0 /\ (forall y. mem y h0 -> y > 0)
inv i: 0 <= i <= 32
inv lists: forall j. i <= j < 32 -> isl #heap(rp->next) #x[j] (lof #heap(rp->next) #x[j]) /\ dist (lof #heap(rp->next) #x[j])
inv owner: forall j y. i <= j < 32 -> (mem y (lof #heap(rp->next) #x[j]) <-> go[y] = j)
inv sorted: forall j. i <= j < 32 -> sorted (lof #heap(rp->next) #x[j])
inv all: forall y. go[y] <= 33 /\ go[y] <> 32 /\ (mem y h0 <-> i <= go[y])
inv others: forall y. not (mem y h0) -> #heap(rp->next)[y] = (old #heap(rp->next))[y]
inv ep: isl #heap(rp->next) rp (lof #heap(rp->next) rp) /\ dist (lof #heap(rp->next) rp) /\ sorted (lof #heap(rp->next) rp)
inv ep-owner: forall y. mem y (lof #heap(rp->next) rp) <-> go[y] = 33
body: gn <- #heap(rp->next);
after_body: assert { forall j. i < j < 32 -> isl #heap(rp->next) #x[j] (lof gn #x[j]) };
 go <- (let o = go in let ii = i in fun y -> if o[y] = ii then 33 else o[y]);

== Action_sort files=lemon/lemon.c props=L05
opt nextfield next
use links.Links
requires list: isl #heap(ap->next) ap (lof #heap(ap->next) ap) /\ dist (lof #heap(ap->next) ap) /\ ln (lof #heap(ap->next) ap) < pw 29
ensures list: isl #heap(ap->next) result (lof #heap(ap->next) result) /\ dist (lof #heap(ap->next) result)
ensures elements: forall x. mem x (lof #heap(ap->next) result) <-> mem x (lof (old #heap(ap->next)) (old ap))
ensures sorted: sorted (lof #heap(ap->next) result)
ensures others: forall x. not (mem x (lof (old #heap(ap->next)) (old ap))) -> #heap(ap->next)[x] = (old #heap(ap->next))[x]
