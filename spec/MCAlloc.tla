------------------------------ MODULE MCAlloc -------------------------------
(* The over-allocating implementation on a small heap: every place a block may *)
(* be put, every length, alignment and history, failing heap included.         *)
EXTENDS Alloc
CONSTANTS Objs, H, Gran, MaxLen, Aligns
VARIABLE live    \* ghost: how often every block was given back
vars == <<own, heap, freed, live>>
Init == AInit /\ live = [o \in Objs |-> 0]
RoundUp(x, a) == ((x + a - 1) \div a) * a
MAlloc(o) ==
  /\ own[o].st = "empty"
  /\ \E len \in 1..MaxLen, a \in Aligns, lo \in {x \in 0..H : x % Gran = 0} :
       LET hi == lo + len + a IN
         /\ hi <= H /\ ~Overlaps(lo, hi)
         /\ Allocate(o, RoundUp(lo, a), len, a, {<<lo, hi>>}, {})
         /\ live' = live
Next == \/ \E o \in Objs :
            \/ New(o) /\ live' = [live EXCEPT ![o] = 0]
            \/ o \in DOMAIN own /\
                 \/ MAlloc(o)
                 \/ Fail(o, {}, {}) /\ UNCHANGED live
                 \/ Refuse(o, {}, {}) /\ UNCHANGED live
                 \/ Use(o) /\ UNCHANGED live
                 \/ Destroy(o, Held(o)) /\ live' = [live EXCEPT ![o] = @ + Cardinality(Held(o))]
Bound == freed < 3
Spec == Init /\ [][Next]_vars
Disjoint == \A b, c \in heap : b # c => b.hi <= c.lo \/ c.hi <= b.lo
Owned == \A o \in DOMAIN own : own[o].st = "holding" => Inside(heap, o, own[o].p, own[o].len)
Apart == \A o, q \in DOMAIN own : (o # q /\ own[o].st = "holding" /\ own[q].st = "holding") =>
           own[o].p + own[o].len <= own[q].p \/ own[q].p + own[q].len <= own[o].p
NoLeak == \A b \in heap : b.o \in DOMAIN own
Once == \A o \in Objs : live[o] <= 1
=============================================================================
