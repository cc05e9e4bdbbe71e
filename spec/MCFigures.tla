------------------------------ MODULE MCFigures -----------------------------
(* How the program arrives at its figures: it reads a clock, multiplies (the   *)
(* SIMD variants reading the clock themselves in every repetition), reads it   *)
(* again, reports, and does the same for the reference.  Printing takes time,  *)
(* too, before and after.  Every figure has to be one Figures allows, and what *)
(* the figures mean is stated on its own.                                      *)
EXTENDS Figures, FiniteSets, TLC
CONSTANTS Algs, Sizes, MaxReps, Costs, Refs
VARIABLES pc, clock, t0, left, own, s, wrote
vars == <<req, spent, total, inner, ref, shown, pc, clock, t0, left, own, s, wrote>>
mine == <<pc, clock, t0, left, own, s, wrote>>
SelfTimed == {"combined", "kernel_tiled"}
Init == \E a \in Algs, n \in Sizes, r \in 1..MaxReps, c \in BOOLEAN :
          /\ FigInit([alg |-> a, n |-> n, reps |-> r, check |-> c])
          /\ pc = "prepare" /\ clock = 0 /\ t0 = 0 /\ left = 0 /\ own = 0 /\ s = 0 /\ wrote = <<>>
Pass(k, d) == Spend(k, d) /\ clock' = clock + d
Prepare == pc = "prepare" /\ (Pass("print", 80) \/ Pass("print", 0)) /\ pc' = "begin" /\ UNCHANGED <<t0, left, own, s, wrote>>
Begin == pc = "begin" /\ Pass("read", 1) /\ t0' = clock' /\ pc' = "rep" /\ left' = Runs(req) /\ UNCHANGED <<own, s, wrote>>
RepStart == pc = "rep" /\ left > 0 /\ req.alg \in SelfTimed /\ Pass("read", 1) /\ s' = clock' /\ pc' = "mul" /\ UNCHANGED <<t0, left, own, wrote>>
Mul == /\ (pc = "mul" \/ (pc = "rep" /\ left > 0 /\ req.alg \notin SelfTimed))
       /\ \E d \in Costs : Pass("multiply", d)
       /\ IF req.alg \in SelfTimed THEN pc' = "repend" /\ left' = left ELSE pc' = "rep" /\ left' = left - 1
       /\ UNCHANGED <<t0, own, s, wrote>>
RepEnd == pc = "repend" /\ Pass("read", 1) /\ own' = own + clock' - s /\ left' = left - 1 /\ pc' = "rep" /\ UNCHANGED <<t0, s, wrote>>
\* a time in quarters of a second as a number with two digits after the point
T(q) == <<25 * q, 0 - 2>>
ToldInner == pc = "rep" /\ left = 0 /\ req.alg \in SelfTimed /\ "inner" \notin shown /\ Inner(T(own), own) /\ UNCHANGED mine
End == pc = "rep" /\ left = 0 /\ (req.alg \in SelfTimed => "inner" \in shown) /\ Pass("read", 1) /\ pc' = "total" /\ UNCHANGED <<t0, left, own, s, wrote>>
Measured == IF req.alg \in OwnTime THEN own ELSE clock - t0
ToldTotal == pc = "total" /\ Total(req.n, T(Measured), Measured) /\ pc' = "avg" /\ wrote' = Append(wrote, <<"total", Measured>>) /\ UNCHANGED <<clock, t0, left, own, s>>
\* (times with a remainder are rounded to six digits)
ToldAvg == pc = "avg" /\ Average(req.n, Runs(req), <<(total * 100000) \div (4 * Runs(req)), 0 - 5>>) /\ pc' = "perf" /\ UNCHANGED <<clock, t0, left, own, s, wrote>>
\* rates are rounded to about six digits
Digits(w) == IF w < 2000 THEN 6 ELSE 4
RateOf(w, q) == <<(w * Pow(Digits(w))) \div q, 0 - 9 - Digits(w)>>
Work1 == Work(req.n) * Runs(req)
ToldPerf == pc = "perf" /\ Performance(req.n, RateOf(Work1, total)) /\ pc' = (IF req.check THEN "show" ELSE "done") /\ wrote' = Append(wrote, <<"perf", RateOf(Work1, total)[1]>>) /\ UNCHANGED <<clock, t0, left, own, s>>
Show == pc = "show" /\ (Pass("print", 80) \/ Pass("print", 0)) /\ pc' = "refbegin" /\ UNCHANGED <<t0, left, own, s, wrote>>
RefBegin == pc = "refbegin" /\ Pass("read", 1) /\ t0' = clock' /\ pc' = "refmul" /\ UNCHANGED <<left, own, s, wrote>>
RefMul == pc = "refmul" /\ (\E d \in Refs : Pass("reference", d)) /\ pc' = "refend" /\ UNCHANGED <<t0, left, own, s, wrote>>
RefEnd == pc = "refend" /\ Pass("read", 1) /\ pc' = "ref" /\ UNCHANGED <<t0, left, own, s, wrote>>
ToldRef == pc = "ref" /\ Reference(T(clock - t0), clock - t0) /\ pc' = "refrate" /\ wrote' = Append(wrote, <<"ref", clock - t0>>) /\ UNCHANGED <<clock, t0, left, own, s>>
ToldRefRate == pc = "refrate" /\ ReferenceRate(req.n, RateOf(Work(req.n), ref)) /\ pc' = "done" /\ UNCHANGED <<clock, t0, left, own, s, wrote>>
Next == Prepare \/ Begin \/ RepStart \/ Mul \/ RepEnd \/ ToldInner \/ End \/ ToldTotal \/ ToldAvg \/ ToldPerf \/ Show \/ RefBegin \/ RefMul \/ RefEnd \/ ToldRef \/ ToldRefRate
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Val(w) == (CHOOSE x \in {wrote[k] : k \in DOMAIN wrote} : x[1] = w)[2]
Has(w) == \E k \in DOMAIN wrote : wrote[k][1] = w
\* the total is the multiplication and at most the looks at the clock during it
TotalIsRun == Has("total") => Val("total") >= spent["multiply"] /\ Val("total") <= spent["multiply"] + 2 * Runs(req) + 1
\* neither printing nor the reference is in it
ReferenceApart == Has("ref") => Val("ref") = spent["reference"] + 1
\* more repetitions of the same cost do not change the rate by more than looking at the clock does
RateIsWork == Has("perf") => LET t == Val("total")  x == Val("perf") * t  y == Work1 * Pow(Digits(Work1))
                             IN x <= y /\ y - x < t
CompleteAtEnd == pc = "done" => Complete
Ends == <>(pc = "done")
=============================================================================
