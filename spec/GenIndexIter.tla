---------------------------- MODULE GenIndexIter ----------------------------
(* Requests, chosen dimension by dimension.  VF_BAD = yes: one part of the     *)
(* request gets another dimensionality.                                        *)
EXTENDS IndexIter, GenKit
MaxPts == EnvNat("VF_PTS", 100)
Masked == EnvStr("VF_MASKED", "yes") = "yes"
Bad == EnvStr("VF_BAD", "no") = "yes"
MaxDim == EnvNat("VF_DIMS", 4)
VARIABLES r, nl, cur, done
vars == <<it, r, nl, cur, done>>
Init == /\ IterInit /\ done = FALSE /\ nl \in 0..3 /\ cur = <<>>
        /\ \E d \in 1..MaxDim, s \in BOOLEAN :
             r = [dim |-> d, pdim |-> d, lo |-> <<>>, hi |-> <<>>, steps |-> IF s /\ Masked THEN <<1>> ELSE <<>>, levels |-> <<>>]
Len1 == {0, 1, 2, 3, 4, 5, 6, 7, 9, 11}
Vol(lo, hi) == LatticeSize(lo, hi, [d \in 1..Len(lo) |-> 1])
\* ranges
Rng == /\ Len(r.lo) < r.dim
       /\ \E l \in {0, 1, 5} : \E n \in Len1 : r' = [r EXCEPT !.lo = Append(@, l), !.hi = Append(@, l + n)]
       /\ Vol(r'.lo, r'.hi) <= MaxPts
       /\ UNCHANGED <<it, nl, cur, done>>
\* steps: the first entry is a marker until the ranges are fixed
Stp == /\ Len(r.lo) = r.dim /\ r.steps # <<>> /\ Len(r.steps) <= r.dim /\ r.levels = <<>> /\ cur = <<>>
       /\ \E s \in 1..3 : r' = [r EXCEPT !.steps = Append(@, s)]
       /\ UNCHANGED <<it, nl, cur, done>>
StepsDone == r.steps = <<>> \/ Len(r.steps) = r.dim + 1
S(d) == IF r.steps = <<>> THEN 1 ELSE r.steps[d + 1]
Lvl == /\ Len(r.lo) = r.dim /\ StepsDone /\ Len(r.levels) < nl /\ Len(cur) < r.dim
       /\ \E k \in 1..5, m \in BOOLEAN : cur' = Append(cur, <<k * S(Len(cur) + 1), m /\ Masked>>)
       /\ UNCHANGED <<it, r, nl, done>>
Put == /\ Len(cur) = r.dim
       /\ r' = [r EXCEPT !.levels = Append(@, [b |-> [d \in 1..r.dim |-> cur[d][1]], p |-> [d \in 1..r.dim |-> cur[d][2]]])]
       /\ cur' = <<>> /\ UNCHANGED <<it, nl, done>>
Final == [r EXCEPT !.steps = IF @ = <<>> THEN <<>> ELSE Tail(@)]
Resize(s, n, x) == [k \in 1..n |-> IF k <= Len(s) THEN s[k] ELSE x]
Others(n) == {k \in (n - 2)..(n + 2) : k >= 1 /\ k # n}
Broken(f) ==
  UNION {
    {[f EXCEPT !.pdim = n, !.levels = [l \in 1..Len(@) |-> [b |-> Resize(@[l].b, n, 1), p |-> Resize(@[l].p, n, FALSE)]],
               !.steps = IF @ = <<>> THEN <<>> ELSE Resize(@, n, 1)] : n \in Others(f.dim)},
    {[f EXCEPT !.lo = Resize(@, n, 0)] : n \in Others(f.dim)},
    {[f EXCEPT !.hi = Resize(@, n, 1)] : n \in Others(f.dim)},
    {[f EXCEPT !.lo = Resize(@, n, 0), !.hi = Resize(@, n, 1)] : n \in Others(f.dim)},
    IF f.steps # <<>> THEN {[f EXCEPT !.steps = Resize(@, n, 1)] : n \in Others(f.dim)} ELSE {},
    {[f EXCEPT !.levels[l].b = Resize(@, n, 1)] : l \in 1..Len(f.levels), n \in Others(f.dim)},
    IF Masked THEN {[f EXCEPT !.levels[l].p = Resize(@, n, FALSE)] : l \in 1..Len(f.levels), n \in Others(f.dim)} ELSE {}}
Fin == /\ Len(r.lo) = r.dim /\ StepsDone /\ Len(r.levels) = nl /\ cur = <<>> /\ ~done /\ done' = TRUE
       /\ IF Bad THEN \E x \in Broken(Final) : r' = x ELSE r' = Final
       /\ UNCHANGED <<it, nl, cur>>
Out == done /\ cur = <<>> /\ Emit(r) /\ cur' = <<"out">> /\ UNCHANGED <<it, r, nl, done>>
Next == (~done /\ (Rng \/ Stp \/ Lvl \/ Put \/ Fin)) \/ Out
Spec == Init /\ [][Next]_vars
=============================================================================
