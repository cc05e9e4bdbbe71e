----------------------------- MODULE TraceReuse -----------------------------
EXTENDS Reuse, TraceKit
VARIABLES cs, i, mats
tvars == <<pr, ob, cs, i, mats>>
E == Cases[cs].ev[i]
Is(name) == i <= Len(Cases[cs].ev) /\ E.e = name /\ i' = i + 1 /\ cs' = cs
Init == ProdInit /\ ReuseInit /\ cs \in 1..NumCases /\ i = 1 /\ mats = <<>>
TIn == /\ Is("in") /\ mats' = Append(mats, [n |-> E.n, bt |-> E.bt, a |-> Mat(E.a, E.n), b |-> Mat(E.b, E.n)]) /\ UNCHANGED <<pr, ob>>
TNew == Is("new") /\ E.m \in 1..Len(mats) /\ Make(E.o, E.m, E.r) /\ UNCHANGED <<pr, mats>>
TDel == Is("del") /\ Drop(E.o) /\ UNCHANGED <<pr, mats>>
TMul == Is("mul") /\ E.live = 0 /\ Answers(E.o, mats, E.out) /\ UNCHANGED <<pr, mats>>
\* the caller's matrices, looked at after every call
TOps == Is("ops") /\ E.m \in 1..Len(mats) /\ E.a = mats[E.m].a /\ E.b = mats[E.m].b /\ UNCHANGED <<pr, ob, mats>>
TOpSame == Is("opsame") /\ E.a /\ E.b /\ UNCHANGED <<pr, ob, mats>>
TEnd == Is("end") /\ UNCHANGED <<pr, ob, mats>>
Next == TIn \/ TNew \/ TDel \/ TMul \/ TOps \/ TOpSame \/ TEnd
Spec == Init /\ [][Next]_tvars
Track == Reach(cs, i - 1)
=============================================================================
