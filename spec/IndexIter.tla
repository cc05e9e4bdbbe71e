----------------------------- MODULE IndexIter ------------------------------
(* Blocked (parallel) index iteration as its caller sees it: the body is run   *)
(* once for every point of the lattice lo, lo+step, ... < hi.  Points that     *)
(* agree in the dimensions some blocking level marks parallel are processed    *)
(* one after the other; a point follows all points that are not greater in any *)
(* dimension.  A request whose parts do not have the dimensionality of the     *)
(* iteration is refused: no point is processed.                                *)
(* Request: dim, pdim (dimensionality of the policy), lo, hi, steps (<<>>: 1   *)
(* everywhere), levels: sequence of [b |-> block, p |-> mask].                 *)
EXTENDS Shapes, FiniteSets, TLC
VARIABLE it
Ones(n) == [d \in 1..n |-> 1]
StepOf(r) == IF r.steps = <<>> THEN Ones(r.dim) ELSE r.steps
StepsFit(r) == r.steps # <<>> => Len(r.steps) = r.dim
Fits(r) ==
  /\ r.pdim = r.dim /\ Len(r.lo) = r.dim /\ Len(r.hi) = r.dim
  /\ \A l \in 1..Len(r.levels) : Len(r.levels[l].b) = r.dim /\ Len(r.levels[l].p) = r.dim
Consistent(r) == Fits(r) /\ StepsFit(r)
EmptyRange(r) == \E d \in 1..r.dim : r.hi[d] <= r.lo[d]
ParDims(r) == {d \in 1..r.dim : \E l \in 1..Len(r.levels) : r.levels[l].p[d]}
Idle == [st |-> "idle"]
IterInit == it = Idle
Request(r) ==
  /\ it.st = "idle"
  /\ it' = IF Consistent(r)
           THEN [st |-> "run", r |-> r, par |-> ParDims(r), step |-> StepOf(r), counts |-> Counts(r.lo, r.hi, StepOf(r)),
                 mark |-> TLCEval([k \in 1..LatticeSize(r.lo, r.hi, StepOf(r)) |-> 0]), n |-> 0, running |-> {}]
           ELSE [st |-> "bad", vac |-> Fits(r) /\ EmptyRange(r)]
InRange(p) ==
  /\ Len(p) = it.r.dim
  /\ \A d \in 1..it.r.dim : p[d] >= it.r.lo[d] /\ p[d] < it.r.hi[d] /\ (p[d] - it.r.lo[d]) % it.step[d] = 0
\* the nearest points that have to be over before p
Before(p) == {[p EXCEPT ![d] = @ - it.step[d]] : d \in {d \in (1..it.r.dim) \ it.par : p[d] > it.r.lo[d]}}
\* number of a point among all points; mark: 0 not begun, 1 running, 2 over
Num(p) == Flat([d \in 1..it.r.dim |-> (p[d] - it.r.lo[d]) \div it.step[d]], it.counts) + 1
Begin(p) ==
  /\ it.st = "run" /\ InRange(p) /\ it.mark[Num(p)] = 0
  /\ \A q \in Before(p) : it.mark[Num(q)] = 2
  /\ (\A q \in it.running : \E d \in it.par : q[d] # p[d]) = TRUE
  /\ it' = [it EXCEPT !.mark[Num(p)] = 1, !.n = @ + 1, !.running = @ \cup {p}]
End(p) == /\ it.st = "run" /\ p \in it.running
          /\ it' = [it EXCEPT !.running = @ \ {p}, !.mark[Num(p)] = 2]
Return == it.st = "run" /\ it.running = {} /\ it.n = Len(it.mark) /\ it' = [st |-> "over"]
\* final steps of another dimensionality are looked at only if there is a point to
\* process
ReturnVacuous == it.st = "bad" /\ it.vac /\ it' = [st |-> "over"]
Refuse == it.st = "bad" /\ it' = [st |-> "over"]
=============================================================================
