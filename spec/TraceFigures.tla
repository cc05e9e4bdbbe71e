---------------------------- MODULE TraceFigures ----------------------------
EXTENDS Figures, TraceKit
VARIABLES cs, i
tvars == <<req, spent, total, inner, ref, shown, cs, i>>
E == Cases[cs].ev[i]
Is(name) == i <= Len(Cases[cs].ev) /\ E.e = name /\ i' = i + 1 /\ cs' = cs
Defaults == [alg |-> "single", n |-> 4, reps |-> 1, check |-> FALSE]
Opt(c) == [f \in DOMAIN Defaults |-> IF f \in DOMAIN c THEN c[f] ELSE Defaults[f]]
Init == cs \in 1..NumCases /\ i = 1 /\ FigInit(Opt(Cases[cs].cfg.opt))
\* quarters nearest to a reported time
Q(v) == IF v[2] > 0 THEN 4 * v[1] * Pow(v[2]) ELSE IF -v[2] > 8 THEN 0 ELSE (4 * v[1] + Pow(-v[2]) \div 2) \div Pow(-v[2])
TSpend == Is("time") /\ Spend(E.what, E.d)
TTotal == Is("total") /\ Total(E.n, E.v, Q(E.v))
TAvg == Is("avg") /\ Average(E.n, E.reps, E.v)
TPerf == Is("perf") /\ Performance(E.n, E.v)
TInner == Is("inner") /\ Inner(E.v, Q(E.v))
TInnerRate == Is("innerrate") /\ InnerRate(E.sz, E.v)
TRef == Is("ref") /\ Reference(E.v, Q(E.v))
TRefRate == Is("refrate") /\ ReferenceRate(E.n, E.v)
\* a call of one of the functions that report the time they took
TCall == Is("call") /\ Called(E.q)
TAgain == Is("again") /\ spent' = [k \in Kinds |-> 0] /\ UNCHANGED <<req, total, inner, ref, shown>>
TDone == Is("done") /\ Complete /\ UNCHANGED fvars
TEnd == Is("end") /\ "inner" \in shown /\ UNCHANGED fvars
Next == TSpend \/ TTotal \/ TAvg \/ TPerf \/ TInner \/ TInnerRate \/ TRef \/ TRefRate \/ TCall \/ TAgain \/ TDone \/ TEnd
Spec == Init /\ [][Next]_tvars
Track == Reach(cs, i - 1)
=============================================================================
