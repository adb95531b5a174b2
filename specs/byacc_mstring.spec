== mputchar files=byacc/mstring.c props=C10
requires shape: s > 0 /\ #s->base > 0 /\ #s->base <= #s->ptr <= #s->end /\ #len(s->base)[#s->base] = #s->end - #s->base /\ #brk(s->base) >= #s->end
ensures appended: #s->base > 0 /\ #s->ptr - #s->base = old (#s->ptr - #s->base) + 1 /\ #heap(s->base[])[off #s->base (old (#s->ptr - #s->base))] = ch
ensures kept: forall i. 0 <= i < old (#s->ptr - #s->base) -> #s->base[i] = (old #heap(s->base[]))[off (old #s->base) i]
ensures shape: #s->base <= #s->ptr <= #s->end /\ #len(s->base)[#s->base] = #s->end - #s->base /\ #brk(s->base) >= #s->end /\ #brk(s->base) >= old #brk(s->base) /\ (#s->base = old #s->base \/ #s->base >= old #brk(s->base))
ensures result: result = ch
ensures frame: forall x. x < old #brk(s->base) -> (x < old #s->base \/ x >= old #s->end) -> #heap(s->base[])[x] = (old #heap(s->base[]))[x]
ensures frame-objects: forall x. x <> s -> #heap(s->base)[x] = (old #heap(s->base))[x] /\ #heap(s->ptr)[x] = (old #heap(s->ptr))[x] /\ #heap(s->end)[x] = (old #heap(s->end))[x]

== msnew files=byacc/mstring.c props=C10
requires brk: #brk(result) > 0 /\ #brk(result->base) > 0
ensures empty: result > 0 /\ #result->base > 0 /\ #result->ptr = #result->base /\ #result->end > #result->base /\ #len(result->base)[#result->base] = #result->end - #result->base /\ #brk(result->base) >= #result->end /\ #result->base >= old #brk(result->base)
ensures frame: forall x. x < old #brk(result->base) -> #heap(result->base[])[x] = (old #heap(result->base[]))[x]

== msdone files=byacc/mstring.c props=C10
requires shape: s > 0 /\ #s->base > 0 /\ #s->base <= #s->ptr <= #s->end /\ #len(s->base)[#s->base] = #s->end - #s->base /\ #brk(s->base) >= #s->end
ensures text: forall i. 0 <= i < old (#s->ptr - #s->base) -> #result[i] = (old #heap(s->base[]))[off (old #s->base) i]
ensures ended: #result[old (#s->ptr - #s->base)] = 0
