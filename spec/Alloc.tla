------------------------------- MODULE Alloc --------------------------------
(* Owners of one aligned block each, over a heap that hands out blocks at any  *)
(* suitable place.  A block is [lo, hi, o]: addresses lo..hi-1, owned by o.    *)
EXTENDS Integers, FiniteSets, Sequences, TLC
VARIABLES own,     \* owner -> [st, p, len]
          heap,    \* live blocks
          freed    \* number of blocks given back so far
avars == <<own, heap, freed>>
AInit == own = <<>> /\ heap = {} /\ freed = 0
Held(o) == {b \in heap : b.o = o}
\* the extent p..p+len-1 lies inside a single block of o
Inside(hp, o, p, len) == \E b \in hp : b.o = o /\ b.lo <= p /\ p + len <= b.hi
Overlaps(lo, hi) == \E b \in heap : lo < b.hi /\ b.lo < hi
Aligned(p, a) == p % a = 0
New(o) == /\ o \notin DOMAIN own /\ heap' = heap /\ freed' = freed
          /\ own' = (o :> [st |-> "empty", p |-> 0, len |-> 0]) @@ own
\* The blocks got and given back during an operation of o
Changes(o, got, gone) ==
  LET g == {[lo |-> x[1], hi |-> x[2], o |-> o] : x \in got} IN
  \* only blocks that are live are given back, and only its own
  /\ gone \subseteq (Held(o) \cup g)
  /\ heap' = (heap \cup g) \ gone
  /\ freed' = freed + Cardinality(gone)
Allocate(o, p, len, align, got, gone) ==
  /\ o \in DOMAIN own /\ own[o].st \in {"empty", "failed"}
  /\ Changes(o, got, gone)
  /\ Aligned(p, align) /\ Inside(heap', o, p, len)
  /\ own' = [own EXCEPT ![o] = [st |-> "holding", p |-> p, len |-> len]]
\* no memory, or no extent of that length exists
Fail(o, got, gone) ==
  /\ o \in DOMAIN own /\ own[o].st \in {"empty", "failed"} /\ Changes(o, got, gone)
  /\ own' = [own EXCEPT ![o].st = "failed"]
\* a second allocation
Refuse(o, got, gone) ==
  /\ o \in DOMAIN own /\ own[o].st # "empty"
  /\ Changes(o, got, gone) /\ heap' = heap
  /\ own' = own
Use(o) == o \in DOMAIN own /\ own[o].st = "holding" /\ Inside(heap, o, own[o].p, own[o].len) /\ UNCHANGED avars
Destroy(o, gone) ==
  /\ o \in DOMAIN own /\ Changes(o, {}, gone) /\ Held(o) = gone
  /\ own' = [q \in DOMAIN own \ {o} |-> own[q]]
AllGone == DOMAIN own = {} /\ heap = {}
=============================================================================
