---------------------------- MODULE TraceAlloc ------------------------------
EXTENDS Alloc, TraceKit
VARIABLES att, cs, i      \* att: [o, oom] of an allocation under way
tvars == <<own, heap, freed, att, cs, i>>
E == Cases[cs].ev[i]
Is(name) == i <= Len(Cases[cs].ev) /\ E.e = name /\ i' = i + 1 /\ cs' = cs
Nobody == [o |-> -1, oom |-> FALSE]
Got == {<<E.got[k][1], E.got[k][2]>> : k \in 1..Len(E.got)}
Gone == {[lo |-> E.gone[k][1], hi |-> E.gone[k][2], o |-> E.o] : k \in 1..Len(E.gone)}
\* nothing given back twice
Proper == Cardinality(Gone) = Len(E.gone) /\ Cardinality(Got) = Len(E.got)
Init == AInit /\ cs \in 1..NumCases /\ i = 1 /\ att = Nobody
TNew == Is("new") /\ Got = {} /\ Gone = {} /\ New(E.o) /\ att' = att
TTry == Is("try") /\ att = Nobody /\ att' = [o |-> E.o, oom |-> E.oom] /\ UNCHANGED avars
TAlloc == /\ Is("alloc") /\ att.o = E.o /\ att' = Nobody /\ Proper
          /\ \/ E.ok /\ ~att.oom /\ Allocate(E.o, E.p, E.ts * E.n, E.a, Got, Gone)
             \/ E.nothing /\ att.oom /\ Fail(E.o, Got, Gone)
             \/ E.nothing /\ Refuse(E.o, Got, Gone)
TUse == Is("use") /\ E.ok /\ Use(E.o) /\ att' = att
TCheck == Is("check") /\ E.ok /\ Use(E.o) /\ att' = att
TDestroy == Is("destroy") /\ Got = {} /\ Proper /\ Destroy(E.o, Gone) /\ att' = att
\* a second allocation may be refused by ending the program
TTerminate == Is("terminate") /\ att.o \in DOMAIN own /\ own[att.o].st # "empty" /\ UNCHANGED <<own, heap, freed, att>>
\* an owner of a block too large for the numbers of TLC: told are the distances
\* of the extent from the ends of the block it lies in
Quiet == UNCHANGED <<own, heap, freed, att>>
TXl == Is("xl") /\ E.ok /\ E.mod = 0 /\ E.front >= 0 /\ E.back >= 0 /\ E.got > E.gone /\ Quiet
TXlEnd == Is("xlend") /\ E.got = E.gone /\ E.left = 0 /\ Quiet
TNone == Is("none") /\ Quiet
TEnd == Is("end") /\ AllGone /\ UNCHANGED <<own, heap, freed, att>>
Next == TNew \/ TTry \/ TAlloc \/ TUse \/ TCheck \/ TDestroy \/ TTerminate \/ TXl \/ TXlEnd \/ TNone \/ TEnd
Spec == Init /\ [][Next]_tvars
Track == Reach(cs, i - 1)
=============================================================================
