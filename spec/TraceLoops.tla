----------------------------- MODULE TraceLoops -----------------------------
EXTENDS Loops, TraceKit
VARIABLES cs, i
tvars == <<nest, cs, i>>
E == Cases[cs].ev[i]
Is(name) == i <= Len(Cases[cs].ev) /\ E.e = name /\ i' = i + 1 /\ cs' = cs
Init == LoopInit /\ cs \in 1..NumCases /\ i = 1
TBegin == Is("begin") /\ Begin(E.lo, E.hi, E.st)
TCalls == Is("calls") /\ Calls(E.pts)
TFin == Is("fin") /\ Finish
TFlat == /\ Is("flat") /\ ~nest.on /\ UNCHANGED nest
         /\ \A k \in 1..Len(E.c) : E.v[k] = FlatRes(E.c[k], E.ext)
\* all coordinates of the extents in lexicographic order: the flat indices count up
TFlatAll == /\ Is("flatall") /\ ~nest.on /\ UNCHANGED nest
            /\ E.v = [k \in 1..Prod(E.ext) |-> k - 1]
TEnd == Is("end") /\ ~nest.on /\ UNCHANGED nest
Next == TBegin \/ TCalls \/ TFin \/ TFlat \/ TFlatAll \/ TEnd
Spec == Init /\ [][Next]_tvars
Track == Reach(cs, i - 1)
=============================================================================
