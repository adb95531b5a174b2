== lemon_strcpy files=lemon/lemon.c props=L12
requires string: exists n. isstr #heap(src[]) src n
ensures copied: forall n. isstr (old #heap(src[])) src n -> (forall i. 0 <= i <= n -> #heap(dest[])[off dest i] = (old #heap(src[]))[off src i]) /\ (forall i. i < dest \/ i > dest + n -> #heap(dest[])[i] = (old #heap(dest[]))[i])
loop 1
inv at: 0 <= src - (src at L1) <= slen #heap(src[]) (src at L1) /\ dest - (dest at L1) = src - (src at L1)
inv copied: forall i. 0 <= i < src - (src at L1) -> #heap(dest[])[off (dest at L1) i] = #heap(src[])[off (src at L1) i]
inv kept: forall i. i < (dest at L1) \/ i >= dest -> #heap(dest[])[i] = (#heap(dest[]) at L1)[i]
inv nonzero: forall i. 0 <= i < src - (src at L1) -> #heap(src[])[off (src at L1) i] <> 0
after: assert { isstr #heap(src[]) (src at L1) (src - (src at L1) - 1) }; assert { slen (#heap(src[]) at L1) (src at L1) = src - (src at L1) - 1 };
var: slen #heap(src[]) (src at L1) - (src - (src at L1))

== append_str files=lemon/lemon.c props=L12
logic:
 function ch int : int
 constant len : int
 function at_ int : int
 function cnt int : int
 predicate scan int
 predicate isd int
 axiom isd_def: forall k [isd k]. isd k <-> (ch k = 37 /\ k + 1 < len /\ ch (k + 1) = 100)
 function arg int int int : int
 axiom arg_0: forall a b. arg a b 0 = a
 axiom arg_s: forall a b m [arg a b m]. m > 0 -> arg a b m = b
requires text: zText <> 0 -> zText > 0 /\ len >= 0 /\ (forall k. 0 <= k < len -> #heap(zText[])[off zText k] = ch k) /\ (n > 0 -> len = n) /\ (n <= 0 -> isstr #heap(zText[]) zText len)
requires positions: scan 0 /\ at_ 0 = 0 /\ cnt 0 = 0 /\ forall k. 0 <= k < len -> scan k -> if isd k then not (scan (k + 1)) /\ scan (k + 2) /\ at_ (k + 2) = at_ k + dlen (arg p1 p2 (cnt k)) /\ cnt (k + 2) = cnt k + 1 else scan (k + 1) /\ at_ (k + 1) = at_ k + 1 /\ cnt (k + 1) = cnt k
requires few: forall k. 0 <= k < len -> scan k -> isd k -> cnt k < 6
requires storage: 0 <= #sa_buf->used <= #sa_buf->alloced /\ (#sa_buf->z = 0 -> #sa_buf->alloced = 0) /\ (#sa_buf->z <> 0 -> #sa_buf->z > 0 /\ #len(sa_buf->z)[#sa_buf->z] = #sa_buf->alloced)
requires overwrite: n < 0 -> zText <> 0 -> #sa_buf->used + n >= 0
ensures taken: zText = 0 -> #sa_buf->used = 0 /\ result = #sa_buf->z = old #sa_buf->z /\ #sa_buf->alloced = old #sa_buf->alloced /\ forall i. i <> #sa_buf->z -> #heap(sa_buf->z[])[i] = (old #heap(sa_buf->z[]))[i]
ensures empty: zText = 0 -> old #sa_buf->used = 0 -> #sa_buf->z <> 0 -> #heap(sa_buf->z[])[off #sa_buf->z 0] = 0
ensures whole: zText = 0 -> old #sa_buf->used > 0 -> #heap(sa_buf->z[]) = old #heap(sa_buf->z[])
ensures storage: 0 <= #sa_buf->used <= #sa_buf->alloced /\ (#sa_buf->z = 0 -> #sa_buf->alloced = 0) /\ (#sa_buf->z <> 0 -> #sa_buf->z > 0 /\ #len(sa_buf->z)[#sa_buf->z] = #sa_buf->alloced)
ensures length: zText <> 0 -> #sa_buf->used = old #sa_buf->used + (if n < 0 then n else 0) + at_ len /\ #sa_buf->used < #sa_buf->alloced /\ result = #sa_buf->z
ensures kept: zText <> 0 -> forall i. 0 <= i < old #sa_buf->used + (if n < 0 then n else 0) -> #heap(sa_buf->z[])[off #sa_buf->z i] = (old #heap(sa_buf->z[]))[off (old #sa_buf->z) i]
ensures plain: zText <> 0 -> forall k. 0 <= k < len -> scan k -> not (isd k) -> #heap(sa_buf->z[])[off #sa_buf->z (old #sa_buf->used + (if n < 0 then n else 0) + at_ k)] = ch k
ensures number: zText <> 0 -> forall k x. 0 <= k < len -> scan k -> isd k -> 0 <= x < dlen (arg p1 p2 (cnt k)) -> #heap(sa_buf->z[])[off #sa_buf->z (old #sa_buf->used + (if n < 0 then n else 0) + at_ k + x)] = dchr (arg p1 p2 (cnt k)) x
ensures terminated: zText <> 0 -> #heap(sa_buf->z[])[off #sa_buf->z #sa_buf->used] = 0
loop 1
body: let ghost k0 = len - n - 1 in assert { 0 <= k0 < len /\ scan k0 /\ off (zText at L1) k0 = zText }; assert { #heap(zText[])[zText] = ch k0 }; assert { k0 + 1 < len -> #heap(zText[])[zText + 1] = ch (k0 + 1) by off (zText at L1) (k0 + 1) = zText + 1 };
inv n: 0 <= n <= len /\ zText - (zText at L1) = len - n
inv scan: scan (len - n) /\ cnt (len - n) >= 0 /\ at_ (len - n) >= 0 /\ at_ (len - n) <= len - n + 9 * cnt (len - n) /\ cnt (len - n) <= 6
inv arg: (cnt (len - n) = 0 -> p1 = (p1 at L1)) /\ (cnt (len - n) > 0 -> p1 = p2)
inv used: #sa_buf->used = (#sa_buf->used at L1) + at_ (len - n)
inv room: #len(sa_buf->z)[#sa_buf->z] = #sa_buf->alloced /\ #sa_buf->alloced > (#sa_buf->used at L1) + len + 80
inv kept: forall i. 0 <= i < (#sa_buf->used at L1) -> #heap(sa_buf->z[])[off #sa_buf->z i] = (#heap(sa_buf->z[]) at L1)[off #sa_buf->z i]
inv mono: forall k. 0 <= k < len - n -> scan k -> at_ k < at_ (len - n) /\ (isd k -> at_ k + dlen (arg (p1 at L1) p2 (cnt k)) <= at_ (len - n))
inv plain: forall k. 0 <= k < len - n -> scan k -> not (isd k) -> #heap(sa_buf->z[])[off #sa_buf->z ((#sa_buf->used at L1) + at_ k)] = ch k
inv number: forall k x. 0 <= k < len - n -> scan k -> isd k -> 0 <= x < dlen (arg (p1 at L1) p2 (cnt k)) -> #heap(sa_buf->z[])[off #sa_buf->z ((#sa_buf->used at L1) + at_ k + x)] = dchr (arg (p1 at L1) p2 (cnt k)) x
var: n
