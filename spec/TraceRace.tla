----------------------------- MODULE TraceRace ------------------------------
EXTENDS Race, TraceKit
VARIABLES cs, i
tvars == <<clk, ob, past, cs, i>>
E == Cases[cs].ev[i]
Is(name) == i <= Len(Cases[cs].ev) /\ E.e = name /\ i' = i + 1 /\ cs' = cs
Init == RaceInit(0) /\ cs \in 1..NumCases /\ i = 1
Reset(n) == /\ clk' = [t \in 1..n |-> [u \in 1..n |-> IF u = t THEN 1 ELSE 0]]
            /\ ob' = <<>> /\ past' = <<>>
TTasks == Is("tasks") /\ Reset(E.n)
TRel == Is("rel") /\ Release(E.t, E.o)
TAcq == Is("acq") /\ Acquire(E.t, E.o)
TSeg == Is("seg") /\ Access([t |-> E.t, r |-> E.r, w |-> E.w])
\* what was computed is the subject of other checks
TOther == (Is("in") \/ Is("prod") \/ Is("ops") \/ Is("opsame") \/ Is("plan") \/ Is("piece") \/ Is("visit")) /\ UNCHANGED rvars
TEnd == Is("end") /\ Len(clk) > 0 /\ UNCHANGED rvars
Next == TTasks \/ TRel \/ TAcq \/ TSeg \/ TOther \/ TEnd
Spec == Init /\ [][Next]_tvars
Track == Reach(cs, i - 1)
=============================================================================
