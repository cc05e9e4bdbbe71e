------------------------------ MODULE Figures -------------------------------
(* The times and rates the program reports about a run.  Time is counted in    *)
(* quarters of a second; spent tells on what: "multiply", "reference" (the     *)
(* product computed for comparison), "print" and "read" (looking at a clock).  *)
(* A reported number is <<m, e>>, meaning m * 10^e, correct to six digits.     *)
EXTENDS Naturals, Integers, Sequences
VARIABLES req, spent, total, inner, ref, shown
fvars == <<req, spent, total, inner, ref, shown>>
OneRun == {"algorithms", "looped", "semi"}
Runs(r) == IF r.alg \in OneRun THEN 1 ELSE r.reps
\* measures only its own inner part
OwnTime == {"kernel_tiled"}
Kinds == {"multiply", "reference", "print", "read"}
FigInit(r) == req = r /\ spent = [k \in Kinds |-> 0] /\ total = 0 /\ inner = 0 /\ ref = 0 /\ shown = {}
Spend(k, d) == spent' = [spent EXCEPT ![k] = @ + d] /\ UNCHANGED <<req, total, inner, ref, shown>>
RECURSIVE Pow(_)
Pow(k) == IF k = 0 THEN 1 ELSE 10 * Pow(k - 1)
Near(x, y) == LET d == IF x > y THEN x - y ELSE y - x IN d <= y \div 20000 + 1
\* v is q quarters of a second
IsTime(v, q) == IF v[2] <= 0 THEN -v[2] <= 8 /\ Near(4 * v[1], q * Pow(-v[2])) ELSE Near(4 * v[1] * Pow(v[2]), q)
\* v is the rate, in 1e9 per second, of work / 8 operations per quarter of a second in q of them
IsRate(v, work, q) == LET k == v[2] + 9 IN q > 0 /\
  IF k <= 0 THEN -k <= 6 /\ Near(v[1] * q, work * Pow(-k)) ELSE Near(v[1] * q, work \div Pow(k))
\* the same for work * 10^e, coarser (three digits and a half)
RECURSIVE Round(_, _)
Round(w, e) == IF w >= 200000 THEN Round(w \div 10, e + 1) ELSE <<w, e>>
Close(x, y) == LET d == IF x > y THEN x - y ELSE y - x IN d <= y \div 4000 + 1
IsRateOf(v, work, e, q) == LET w == Round(work, e) k == v[2] + 9 - w[2] IN q > 0 /\ q <= 2000 /\
  IF k <= 0 THEN -k <= 4 /\ Close(v[1] * q, w[1] * Pow(-k)) ELSE k <= 4 /\ Close((v[1] * q) \div Pow(k), w[1])
\* the operations of one product
Work(n) == 8 * n * n * n
\* v is the rate of r products of size n
IsProductRate(v, n, r, q) == IF n <= 300 THEN IsRate(v, Work(n) * r, q) ELSE IsRateOf(v, ((8 * n * n) \div 100) * n * r, 2, q)
Tell(what) == shown' = shown \cup {what}
\* all of the multiplication was measured, and nothing but it
Total(n, v, q) == /\ n = req.n /\ IsTime(v, q) /\ q > 0
                  /\ q <= spent["multiply"] + spent["read"]
                  /\ (req.alg \notin OwnTime => q >= spent["multiply"])
                  /\ total' = q /\ Tell("total") /\ UNCHANGED <<req, spent, inner, ref>>
Average(n, r, v) == /\ n = req.n /\ "total" \in shown /\ r = Runs(req)
                    /\ IsTime(<<v[1] * r, v[2]>>, total)
                    /\ Tell("avg") /\ UNCHANGED <<req, spent, total, inner, ref>>
Performance(n, v) == /\ n = req.n /\ "total" \in shown /\ IsProductRate(v, n, Runs(req), total)
                     /\ Tell("perf") /\ UNCHANGED <<req, spent, total, inner, ref>>
\* the part a variant measures itself, and its rate including what it pads
Inner(v, q) == /\ IsTime(v, q) /\ q > 0 /\ q <= spent["multiply"] + spent["read"]
               /\ inner' = q /\ Tell("inner") /\ UNCHANGED <<req, spent, total, ref>>
\* (x * y * k is given as sz[1] * 10^sz[2], six digits)
InnerRate(sz, v) == /\ "inner" \in shown /\ IsRateOf(v, 8 * sz[1] * req.reps, sz[2], inner)
                    /\ Tell("innerrate") /\ UNCHANGED <<req, spent, total, inner, ref>>
\* the duration a multiplication hands back, whatever the variable held before: each
\* repetition was measured, with the parallel work done in it
Min(a, b) == IF a < b THEN a ELSE b
Called(q) == /\ q > 0 /\ q <= spent["multiply"] + spent["read"]
             /\ q >= Min(4 * req.reps, spent["multiply"]) /\ q >= Min(req.reps, spent["read"] \div 2)
             /\ inner' = q /\ Tell("inner") /\ UNCHANGED <<req, spent, total, ref>>
Reference(v, q) == /\ req.check /\ IsTime(v, q) /\ q >= spent["reference"] /\ q <= spent["reference"] + spent["read"]
                   /\ ref' = q /\ Tell("ref") /\ UNCHANGED <<req, spent, total, inner>>
ReferenceRate(n, v) == /\ n = req.n /\ "ref" \in shown /\ IsProductRate(v, n, 1, ref)
                       /\ Tell("refrate") /\ UNCHANGED <<req, spent, total, inner, ref>>
Complete == {"total", "avg", "perf"} \subseteq shown /\ (req.check => {"ref", "refrate"} \subseteq shown)
=============================================================================
