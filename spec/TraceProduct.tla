---------------------------- MODULE TraceProduct ----------------------------
EXTENDS Product, TraceKit
VARIABLES cs, i
tvars == <<pr, cs, i>>
E == Cases[cs].ev[i]
Is(name) == i <= Len(Cases[cs].ev) /\ E.e = name /\ i' = i + 1 /\ cs' = cs
Init == ProdInit /\ cs \in 1..NumCases /\ i = 1
TIn == Is("in") /\ OperandsBy(E.n, E.bt, E.a, E.b)
\* the result is there, and nothing goes on in the background
TProd == Is("prod") /\ E.live = 0 /\ Result(E.out)
\* a large one, by residue classes of the indices
TProdRes == Is("prodres") /\ E.live = 0 /\ ResultByClass(E.size, E.out)
TBlock == Is("block") /\ E.tail /\ BlockResult(E.out, E.x, E.y, E.s)
TOps == Is("ops") /\ StillOperands(E.a, E.b)
TOpSame == Is("opsame") /\ E.a /\ E.b /\ UNCHANGED pr
\* nothing written next to the matrices
TGuards == Is("guards") /\ E.ok /\ UNCHANGED pr
\* another schedule of the same multiplication; how many were run
TAgain == Is("again") /\ Done
TCount == Is("schedules") /\ E.n > 0 /\ UNCHANGED pr
TEnd == Is("end") /\ Done
Next == TIn \/ TProd \/ TProdRes \/ TBlock \/ TOps \/ TOpSame \/ TGuards \/ TAgain \/ TCount \/ TEnd
Spec == Init /\ [][Next]_tvars
Track == Reach(cs, i - 1)
=============================================================================
