--------------------------- MODULE TraceIndexIter ---------------------------
EXTENDS IndexIter, TraceKit
VARIABLES cs, i
tvars == <<it, cs, i>>
E == Cases[cs].ev[i]
Is(name) == i <= Len(Cases[cs].ev) /\ E.e = name /\ i' = i + 1 /\ cs' = cs
Init == IterInit /\ cs \in 1..NumCases /\ i = 1
TReq == Is("request") /\ Request(Cases[cs].cfg.r)
TBegin == Is("b") /\ Begin(E.p)
TEnd == Is("x") /\ End(E.p)
TRet == Is("ret") /\ (Return \/ ReturnVacuous)
\* a refusal ends the process or raises an exception
TRefuse == (Is("exception") \/ Is("terminate")) /\ Refuse
TFin == Is("end") /\ it.st = "over" /\ UNCHANGED it
Next == TReq \/ TBegin \/ TEnd \/ TRet \/ TRefuse \/ TFin
Spec == Init /\ [][Next]_tvars
Track == Reach(cs, i - 1)
=============================================================================
