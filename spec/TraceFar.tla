------------------------------ MODULE TraceFar ------------------------------
EXTENDS Far, TraceKit
VARIABLES cs, i
tvars == <<nest, farvars, cs, i>>
E == Cases[cs].ev[i]
Is(name) == i <= Len(Cases[cs].ev) /\ E.e = name /\ i' = i + 1 /\ cs' = cs /\ UNCHANGED nest
Init == cs \in 1..NumCases /\ i = 1 /\ FarInit /\ LoopInit
TNew == Is("far") /\ FarNew(E.tile, E.tiles)
TBind == Is("bind") /\ FarBind(E.t)
TVisit == Is("visit") /\ FarVisit
TAt == Is("at") /\ E.in /\ E.seen /\ FarAt(E.t, E.dirs, E.c, E.v, E.size)
TOver == Is("over") /\ FarOver
\* the machine has no address space for such an array
TNone == Is("none") /\ left = <<>> /\ UNCHANGED farvars
TEnd == Is("end") /\ (left = NoTile \/ "all" \notin DOMAIN Cases[cs].cfg) /\ UNCHANGED farvars
Next == TNew \/ TBind \/ TVisit \/ TAt \/ TOver \/ TNone \/ TEnd
Spec == Init /\ [][Next]_tvars
Track == Reach(cs, i - 1)
=============================================================================
