---------------------------- MODULE TraceErrors -----------------------------
EXTENDS Errors, TraceKit
VARIABLES cs, i
tvars == <<obj, ptr, cs, i>>
E == Cases[cs].ev[i]
Is(name) == i <= Len(Cases[cs].ev) /\ E.e = name /\ i' = i + 1 /\ cs' = cs
Init == ErrInit /\ cs \in 1..NumCases /\ i = 1
TCreate == Is("create") /\ Create(E.cls, E.msg)
TCopy == Is("copy") /\ Copy(E.k)
TAssign == Is("assign") /\ Assign(E.k, E.j)
TDestroy == Is("destroy") /\ Destroy(E.k)
THold == Is("hold") /\ Hold(E.k)
TClobber == Is("clobber") /\ Clobber
TRead == Is("read") /\ Read(E.k) /\ E.text = ReadRes(E.k)
TReadHeld == Is("held") /\ ReadHeld(E.q) /\ E.text = HeldRes(E.q)
TEnd == Is("end") /\ UNCHANGED evars
Next == TCreate \/ TCopy \/ TAssign \/ TDestroy \/ THold \/ TClobber \/ TRead \/ TReadHeld \/ TEnd
Spec == Init /\ [][Next]_tvars
Track == Reach(cs, i - 1)
=============================================================================
