----------------------------- MODULE TraceDist ------------------------------
(* Distributed multiplication: the plan, where blocks are computed, results.   *)
EXTENDS Recursive, TraceKit
VARIABLES cs, i, plan
tvars == <<pr, rc, cs, i, plan>>
E == Cases[cs].ev[i]
Is(name) == i <= Len(Cases[cs].ev) /\ E.e = name /\ i' = i + 1 /\ cs' = cs /\ rc' = rc
Init == ProdInit /\ rc = 0 /\ cs \in 1..NumCases /\ i = 1 /\ plan = [nodes |-> 0, pk |-> {}]
TIn == Is("in") /\ OperandsBy(E.n, E.bt, E.a, E.b) /\ UNCHANGED plan
\* the plan for the computing nodes; with several nodes the first one is left out
TPlan == /\ Is("plan") /\ UNCHANGED pr
         /\ plan' = [nodes |-> E.nodes,
                     pk |-> UNION {{[loc |-> IF E.nodes > 1 THEN k ELSE k - 1, x |-> E.work[k][q][1], y |-> E.work[k][q][2], s |-> E.work[k][q][3]] :
                                      q \in 1..Len(E.work[k])} : k \in 1..Len(E.work)}]
TPiece == Is("piece") /\ MayCompute(plan.pk, plan.nodes, E.loc, E.x, E.y, E.s) = TRUE /\ UNCHANGED <<pr, plan>>
TProd == Is("prod") /\ E.live = 0 /\ Result(E.out) /\ UNCHANGED plan
TProdRes == Is("prodres") /\ E.live = 0 /\ ResultByClass(E.size, E.out) /\ UNCHANGED plan
TOps == Is("ops") /\ StillOperands(E.a, E.b) /\ UNCHANGED plan
TOpSame == Is("opsame") /\ E.a /\ E.b /\ UNCHANGED <<pr, plan>>
TAgain == Is("again") /\ Done /\ UNCHANGED plan
TCount == Is("schedules") /\ E.n > 0 /\ UNCHANGED <<pr, plan>>
TEnd == Is("end") /\ Done /\ UNCHANGED plan
Next == TIn \/ TPlan \/ TPiece \/ TProd \/ TProdRes \/ TOps \/ TOpSame \/ TAgain \/ TCount \/ TEnd
Spec == Init /\ [][Next]_tvars
Track == Reach(cs, i - 1)
=============================================================================
