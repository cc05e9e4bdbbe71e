------------------------------- MODULE Loops --------------------------------
(* Loop nests as an odometer: the body is called for the current point, then   *)
(* the last dimension that can still advance does, and the faster ones restart. *)
(* Flat indices: row-major numbering, also modulo small primes so that index   *)
(* values beyond TLC's integers can be compared.                               *)
EXTENDS Shapes

NonEmpty(lo, hi) == \A d \in 1..Len(lo) : lo[d] < hi[d]
CanStep(c, hi, st, d) == c[d] + st[d] < hi[d]
Last(c, hi, st) == {d \in 1..Len(c) : CanStep(c, hi, st, d) /\ \A q \in (d + 1)..Len(c) : ~CanStep(c, hi, st, q)}
Step(c, lo, hi, st) ==
  LET d == CHOOSE d \in Last(c, hi, st) : TRUE
  IN [q \in 1..Len(c) |-> IF q < d THEN c[q] ELSE IF q = d THEN c[d] + st[d] ELSE lo[q]]

VARIABLES nest
Idle == [on |-> FALSE]
LoopInit == nest = Idle
Begin(lo, hi, st) ==
  /\ ~nest.on /\ Len(lo) = Len(hi) /\ Len(lo) = Len(st) /\ \A d \in 1..Len(st) : st[d] > 0
  /\ nest' = [on |-> TRUE, lo |-> lo, hi |-> hi, st |-> st, cur |-> lo,
              over |-> ~NonEmpty(lo, hi), n |-> 0]
After(n) == IF Last(n.cur, n.hi, n.st) = {} THEN [n EXCEPT !.over = TRUE, !.n = @ + 1]
            ELSE [n EXCEPT !.cur = Step(n.cur, n.lo, n.hi, n.st), !.n = @ + 1]
Call == nest.on /\ ~nest.over /\ nest' = After(nest)
Finish == nest.on /\ nest.over /\ nest' = Idle
\* a run of consecutive calls
RECURSIVE Walk(_, _, _)
Walk(n, pts, k) ==
  IF k > Len(pts) THEN n
  ELSE IF n.over \/ pts[k] # n.cur THEN [on |-> FALSE]
  ELSE Walk(After(n), pts, k + 1)
Calls(pts) == nest.on /\ nest' = Walk(nest, pts, 1) /\ nest'.on

(* Residues of the flat index.                                                 *)
Primes == <<46337, 46327, 46309, 46307>>
RECURSIVE FlatModTo(_, _, _, _)
FlatModTo(c, e, p, n) ==
  IF n = 0 THEN 0 ELSE (FlatModTo(c, e, p, n - 1) * (e[n] % p) + (c[n] % p)) % p
FlatRes(c, e) == [j \in 1..Len(Primes) |-> FlatModTo(c, e, Primes[j], Len(e))]
=============================================================================
