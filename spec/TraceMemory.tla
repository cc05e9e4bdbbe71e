---------------------------- MODULE TraceMemory -----------------------------
(* Blocks are independent of each other, so a history is given block by block; *)
(* a block already dealt with is forgotten.                                    *)
EXTENDS Memory, TraceKit
VARIABLES cs, i
tvars == <<size, live, cs, i>>
E == Cases[cs].ev[i]
Is(name) == i <= Len(Cases[cs].ev) /\ E.e = name /\ i' = i + 1 /\ cs' = cs
Init == MemInit /\ cs \in 1..NumCases /\ i = 1
TNew == Is("mnew") /\ E.n >= 0 /\ size' = [c \in {E.b} |-> E.n] /\ live' = {E.b}
TUse == Is("muse") /\ Touch(E.b, E.lo, E.hi)
TFree == Is("mfree") /\ Release(E.b)
\* a behaviour that ends with something else than a stray access is not judged here
TEnd == (Is("end") \/ Is("cut")) /\ UNCHANGED mvars
Next == TNew \/ TUse \/ TFree \/ TEnd
Spec == Init /\ [][Next]_tvars
Track == Reach(cs, i - 1)
=============================================================================
