------------------------------ MODULE Schedule ------------------------------
(* Distribution of an n x n result over nodes as square packages <<x, y, s>>.  *)
(* At first one node has everything.  As long as no limit is met, a most       *)
(* loaded node splits one of its packages and passes half of it on to a least  *)
(* loaded node, if that does not make the difference of the two larger.        *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
VARIABLE sd     \* [n, min, ad, rn, rd, work]: limits and packages per node (a sequence of sets)

Area(p) == p[3] * p[3]
SumOf(ps) == FoldLeft(LAMBDA acc, p : acc + Area(p), 0, SetToSeq(ps))
MaxOf(s) == CHOOSE v \in {s[k] : k \in 1..Len(s)} : \A k \in 1..Len(s) : s[k] <= v
MinOf(s) == CHOOSE v \in {s[k] : k \in 1..Len(s)} : \A k \in 1..Len(s) : s[k] >= v
Loads(work) == [k \in 1..Len(work) |-> SumOf(work[k])]
\* the limits: absolute difference, difference relative to the least loaded
\* node (rn/rd)
Balanced(loads, ad, rn, rd) ==
  LET mx == MaxOf(loads) mn == MinOf(loads) IN
  mx - mn < ad \/ (mn > 0 /\ (mx - mn) * rd < rn * mn)
\* may p be split on a node with load mx, half of it going to one with load mn?
Splittable(p, min, mx, mn) == p[3] > min /\ p[3] % 2 = 0 /\ LET d == (mx - mn) - Area(p) IN (IF d < 0 THEN -d ELSE d) <= mx - mn
QuartersOf(p) == LET h == p[3] \div 2 IN {<<p[1], p[2], h>>, <<p[1] + h, p[2], h>>, <<p[1], p[2] + h, h>>, <<p[1] + h, p[2] + h, h>>}
CanMove(work, min) ==
  LET l == Loads(work) mx == MaxOf(l) mn == MinOf(l) IN
  \E k \in 1..Len(work) : l[k] = mx /\ \E p \in work[k] : Splittable(p, min, mx, mn)
\* when construction ends
Ends(s) == Balanced(Loads(s.work), s.ad, s.rn, s.rd) \/ ~CanMove(s.work, s.min)

SInit(n, nodes, min, ad, rn, rd) ==
  [n |-> n, min |-> min, ad |-> ad, rn |-> rn, rd |-> rd, work |-> [k \in 1..nodes |-> IF k = 1 THEN {<<0, 0, n>>} ELSE {}]]
Move(a, b, p, half) ==
  /\ a # b /\ p \in sd.work[a] /\ half \subseteq QuartersOf(p) /\ Cardinality(half) = 2
  /\ LET l == Loads(sd.work) IN
     /\ l[a] = MaxOf(l) /\ l[b] = MinOf(l)
     /\ ~Balanced(l, sd.ad, sd.rn, sd.rd)
     /\ Splittable(p, sd.min, l[a], l[b])
  /\ sd' = [sd EXCEPT !.work[a] = (@ \ {p}) \cup half, !.work[b] = @ \cup (QuartersOf(p) \ half)]

\* ---- what a finished schedule has to satisfy ----
InsideM(p, n) == p[1] >= 0 /\ p[2] >= 0 /\ p[3] > 0 /\ p[1] + p[3] <= n /\ p[2] + p[3] <= n
Disjoint(p, q) == p[1] + p[3] <= q[1] \/ q[1] + q[3] <= p[1] \/ p[2] + p[3] <= q[2] \/ q[2] + q[3] <= p[2]
\* a sequence of packages: inside, disjoint, and as large as the matrix together
ExactCover(ps, n) ==
  /\ \A k \in 1..Len(ps) : InsideM(ps[k], n)
  /\ \A k \in 1..Len(ps) : \A m \in 1..(k - 1) : Disjoint(ps[k], ps[m])
  /\ FoldLeft(LAMBDA acc, p : acc + Area(p), 0, ps) = n * n
\* packages arise from splitting larger ones that may be split
RECURSIVE FromSplits(_, _, _)
FromSplits(s, e, min) == e = s \/ (e > s /\ e > min /\ e % 2 = 0 /\ FromSplits(s, e \div 2, min))
Flatten1(lists) == FoldLeft(LAMBDA acc, l : acc \o l, <<>>, lists)
=============================================================================
