------------------------------- MODULE MCRace -------------------------------
(* Every short history of tasks that synchronise and access memory: the clocks *)
(* say exactly what reachability over program order and release-to-acquire     *)
(* says; and where no two unordered stretches conflict, every order of the     *)
(* same steps that respects what happens before what gives every read the same *)
(* write - the result does not depend on the schedule.                         *)
EXTENDS Race, TLC
CONSTANTS Tasks, Objs, Locs, Len_
VARIABLES h      \* the history: [k, t, o] for k = r, a; [k, t, l] for reads and writes (R, W)
vars == <<clk, ob, past, h>>
Init == RaceInit(Tasks) /\ h = <<>>
One(l) == <<<<l, l + 1>>>>
Step == /\ Len(h) < Len_
        /\ \E t \in 1..Tasks :
             \/ \E o \in 1..Objs : Release(t, o) /\ h' = Append(h, <<"r", t, o, clk[t]>>)
             \/ \E o \in 1..Objs : Acquire(t, o) /\ h' = Append(h, <<"a", t, o, clk[t]>>)
             \/ \E l \in 1..Locs : Note([t |-> t, r |-> One(l), w |-> <<>>]) /\ h' = Append(h, <<"R", t, l, clk[t]>>)
             \/ \E l \in 1..Locs : Note([t |-> t, r |-> <<>>, w |-> One(l)]) /\ h' = Append(h, <<"W", t, l, clk[t]>>)
Spec == Init /\ [][Step]_vars
N == Len(h)
\* happens before, from its definition
Direct(i, j) == i < j /\ (h[i][2] = h[j][2] \/ (h[i][1] = "r" /\ h[j][1] = "a" /\ h[i][3] = h[j][3]))
Closure(R) == LET Go[k \in 0..N] == IF k = 0 THEN R
                                    ELSE Go[k - 1] \cup {<<i, j>> \in (1..N) \X (1..N) : <<i, k>> \in Go[k - 1] /\ <<k, j>> \in Go[k - 1]}
              IN Go[N]
HB == Closure({<<i, j>> \in (1..N) \X (1..N) : Direct(i, j)})
Acc == {i \in 1..N : h[i][1] \in {"R", "W"}}
\* accesses in the order they were noted
Nth(i) == Cardinality({q \in Acc : q <= i})
Ordered(i, j) == past[Nth(i)].c <= h[j][4][h[i][2]]
ClocksExact == LET hb == HB IN \A i, j \in Acc : i < j /\ h[i][2] # h[j][2] => (Ordered(i, j) <=> <<i, j>> \in hb)
Clash(i, j) == h[i][2] # h[j][2] /\ h[i][3] = h[j][3] /\ "W" \in {h[i][1], h[j][1]}
\* Racy, as it was asked when each access happened
RacyThen(j) == LET s == past[Nth(j)].s IN
  \E k \in 1..(Nth(j) - 1) : past[k].s.t # s.t /\ ~(past[k].c <= h[j][4][past[k].s.t]) /\ Conflict(past[k].s, s)
RaceFree == \A j \in Acc : ~RacyThen(j)
RaceIsRace == LET hb == HB IN RaceFree <=> ~\E i, j \in Acc : i < j /\ Clash(i, j) /\ <<i, j>> \notin hb
Orders(hb) == {p \in Permutations(1..N) : \A e \in hb : p[e[1]] < p[e[2]]}
\* the write a read sees when event e happens at place p[e]
Writes(l) == {i \in Acc : h[i][1] = "W" /\ h[i][3] = l}
Sees(p, l, at) == LET S == {w \in Writes(l) : p[w] < at} IN
                  IF S = {} THEN 0 ELSE CHOOSE w \in S : \A x \in S : p[x] <= p[w]
Same == [i \in 1..N |-> i]
SameResult == N = Len_ /\ RaceFree =>
  LET hb == HB IN \A p \in Orders(hb) :
    /\ \A r \in Acc : h[r][1] = "R" => Sees(p, h[r][3], p[r]) = Sees(Same, h[r][3], r)
    /\ \A l \in 1..Locs : Sees(p, l, N + 1) = Sees(Same, l, N + 1)
=============================================================================
