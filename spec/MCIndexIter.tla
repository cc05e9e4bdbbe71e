---------------------------- MODULE MCIndexIter -----------------------------
(* The nested blocking algorithm under every schedule implements IndexIter.    *)
(* A level cuts its region into blocks; blocks that differ in a parallel       *)
(* dimension are independent, the others follow each other (first dimension    *)
(* fastest); inside the last level points are visited lexicographically.       *)
EXTENDS IndexIter
CONSTANTS Exts, Blocks, MaxLevels, Overlap
Masks == [1..2 -> BOOLEAN]
LevelSet == [b : [1..2 -> Blocks], p : Masks]
StepSet == {<<>>, <<1, 2>>, <<2, 1>>}
OkSteps(s, ls) == s = <<>> \/ \A l \in 1..Len(ls) : \A d \in 1..2 : ls[l].b[d] % s[d] = 0
Reqs == {r \in [dim : {2}, pdim : {2}, lo : {<<0, 1>>}, hi : {<<a, b + 1>> : a \in Exts, b \in Exts},
               steps : StepSet, levels : UNION {[1..n -> LevelSet] : n \in 0..MaxLevels}] : OkSteps(r.steps, r.levels)}
ColexLess(a, b) == \E d \in 1..Len(a) : a[d] < b[d] /\ \A q \in (d + 1)..Len(a) : a[q] = b[q]
RECURSIVE Prec(_, _, _, _, _)
\* does q come before p; the policy is a stack, its last level is the outermost
Prec(q, p, lo, ls, l) ==
  IF l = 0 THEN LexLess(q, p)
  ELSE LET bl(x) == [d \in 1..Len(lo) |-> (x[d] - lo[d]) \div ls[l].b[d]]
           bq == bl(q)
           bp == bl(p)
       IN IF bq = bp THEN Prec(q, p, [d \in 1..Len(lo) |-> lo[d] + bq[d] * ls[l].b[d]], ls, l - 1)
          ELSE IF \E d \in 1..Len(lo) : ls[l].p[d] /\ bq[d] # bp[d] THEN FALSE
          ELSE ColexLess(bq, bp)
VARIABLE pred
Pts == DOMAIN pred
Init == IterInit /\ pred = <<>>
Call == /\ it.st = "idle" /\ \E r \in Reqs : Request(r)
        /\ LET ps == LatticeSet(it'.r.lo, it'.r.hi, it'.step)
               n == Len(it'.r.levels)
           IN pred' = [p \in ps |-> {q \in ps : Prec(q, p, it'.r.lo, it'.r.levels, n)}]
AlgBegin(p) ==
  /\ it.mark[Num(p)] = 0
  /\ Overlap \/ it.running = {}
  /\ \A q \in pred[p] : it.mark[Num(q)] = 2
  /\ it' = [it EXCEPT !.mark[Num(p)] = 1, !.n = @ + 1, !.running = @ \cup {p}]
Next == \/ Call
        \/ /\ UNCHANGED pred
           /\ \/ it.st = "run" /\ \E p \in Pts : AlgBegin(p)
              \/ it.st = "run" /\ \E p \in it.running : End(p)
              \/ it.st = "run" /\ (\A p \in Pts : it.mark[Num(p)] = 2) /\ it.running = {} /\ Return
              \/ it.st = "over" /\ UNCHANGED it
Spec == Init /\ [][Next]_<<it, pred>>
\* every step of the algorithm is one the specification allows
Allowed == [][\/ it.st = "idle"
              \/ it.st = "run" /\ \E p \in Pts : Begin(p) \/ End(p)
              \/ Return]_it
\* points in the same sequential chain: all smaller ones are over
Ordered == it.st = "run" => \A p \in {p \in Pts : it.mark[Num(p)] > 0} : \A q \in Pts :
   (q # p /\ (\A d \in 1..2 : q[d] <= p[d]) /\ (\A d \in it.par : q[d] = p[d])) => it.mark[Num(q)] = 2
\* No deadlock (checked): every iteration can be finished from everywhere; each
\* step makes progress, so it does end.
=============================================================================
