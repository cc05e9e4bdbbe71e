----------------------------- MODULE MCSchedule -----------------------------
(* Every size, node count and limits within the bounds, every choice the       *)
(* construction leaves open.                                                   *)
EXTENDS Schedule, TLC
CONSTANTS MaxN, MaxNodes, MaxSplits
Rels == {<<0, 1>>, <<1, 4>>, <<1, 1>>, <<3, 1>>}
Init == \E n \in 1..MaxN : \E k \in 1..MaxNodes : \E min \in {0, 1, 2, 4} : \E ad \in {0, 1, 3, 8} : \E r \in Rels :
          sd = SInit(n, k, min, ad, r[1], r[2])
Quads(s) == {h \in SUBSET s : Cardinality(h) = 2}
Count == Cardinality(UNION {sd.work[k] : k \in 1..Len(sd.work)})
Next == \/ /\ Count <= 3 * MaxSplits
           /\ \E a, b \in 1..Len(sd.work) : \E p \in sd.work[a] : \E h \in Quads(QuartersOf(p)) : Move(a, b, p, h)
        \/ Ends(sd) /\ UNCHANGED sd
        \/ Count > 3 * MaxSplits /\ UNCHANGED sd
Spec == Init /\ [][Next]_sd
All == Flatten1([k \in 1..Len(sd.work) |-> SetToSeq(sd.work[k])])
Cover == ExactCover(All, sd.n)
Legal == \A k \in 1..Len(All) : FromSplits(All[k][3], sd.n, sd.min)
\* the difference of extremes never grows (so construction ends: packages shrink)
NeverWorse == [][LET l == Loads(sd.work) m == Loads(sd'.work) IN MaxOf(m) - MinOf(m) <= MaxOf(l) - MinOf(l)]_sd
\* a step is possible exactly until it ends
EndsOrMoves == Ends(sd) \/ Count > 3 * MaxSplits \/
  \E a, b \in 1..Len(sd.work) : a # b /\ LET l == Loads(sd.work) IN l[a] = MaxOf(l) /\ l[b] = MinOf(l) /\ \E p \in sd.work[a] : Splittable(p, sd.min, l[a], l[b])
=============================================================================
