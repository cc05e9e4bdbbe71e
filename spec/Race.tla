-------------------------------- MODULE Race --------------------------------
(* What happens before what, and whether two unordered parts conflict.         *)
(* Tasks release and acquire objects (starting and awaiting tasks, futures,    *)
(* barriers, locks, atomics); between that they access memory: a stretch is    *)
(* [t, r, w], with the places read and written as sequences of <<from, to>>.   *)
(* clk[t][u]: how far task t knows task u has got; ob[o]: what releasing o     *)
(* passed on; past: the stretches so far with the clock of their task.         *)
EXTENDS Naturals, Sequences, FiniteSets
VARIABLES clk, ob, past
rvars == <<clk, ob, past>>
Max(a, b) == IF a > b THEN a ELSE b
Join(v, w) == [u \in DOMAIN v |-> Max(v[u], w[u])]
RaceInit(n) == /\ clk = [t \in 1..n |-> [u \in 1..n |-> IF u = t THEN 1 ELSE 0]]
               /\ ob = <<>> /\ past = <<>>
Grown(o) == [k \in 1..Max(o, Len(ob)) |-> IF k <= Len(ob) THEN ob[k] ELSE [u \in DOMAIN clk |-> 0]]
Release(t, o) == /\ ob' = [Grown(o) EXCEPT ![o] = Join(@, clk[t])]
                 /\ clk' = [clk EXCEPT ![t][t] = @ + 1]
                 /\ UNCHANGED past
Acquire(t, o) == /\ clk' = [clk EXCEPT ![t] = IF o <= Len(ob) THEN Join(@, ob[o]) ELSE @]
                 /\ UNCHANGED <<ob, past>>
\* a stretch of task u at u's clock c happened before what t does now
Before(u, c, t) == c <= clk[t][u]
Meet(v, w) == \E x \in 1..Len(v), y \in 1..Len(w) : v[x][1] < w[y][2] /\ w[y][1] < v[x][2]
Conflict(s, q) == Meet(s.w, q.w) \/ Meet(s.w, q.r) \/ Meet(s.r, q.w)
Racy(s) == \E k \in 1..Len(past) : past[k].s.t # s.t /\ ~Before(past[k].s.t, past[k].c, s.t) /\ Conflict(past[k].s, s)
Note(s) == past' = Append(past, [s |-> s, c |-> clk[s.t][s.t]]) /\ UNCHANGED <<clk, ob>>
\* the guarantee: no stretch conflicts with one it is not ordered with
Access(s) == ~Racy(s) /\ Note(s)
=============================================================================
