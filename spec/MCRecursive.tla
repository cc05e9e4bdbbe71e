---------------------------- MODULE MCRecursive -----------------------------
(* Sizes, limits and plans within the bounds, every order of tasks and         *)
(* continuations.                                                              *)
EXTENDS Recursive
CONSTANTS Sizes, MaxReps, MaxTasks, Nodes, Fine
vars == <<pr, rc>>
PA(n, k) == Mat([kind |-> "poly", c |-> <<3, 5, 7, 2 + k, 1, 4>>], n)
\* plans: one package, or its quarters dealt out
Whole(n) == {{[loc |-> IF Nodes > 1 THEN 1 ELSE 0, x |-> 0, y |-> 0, s |-> n]}}
Dealt(n) == IF n % 2 = 1 THEN {} ELSE
  {{[loc |-> IF Nodes > 1 THEN f[q] ELSE 0, x |-> q[1], y |-> q[2], s |-> q[3]] : q \in Quarters(0, 0, n)} :
     f \in [Quarters(0, 0, n) -> IF Nodes > 1 THEN 1..(Nodes - 1) ELSE {0}]}
RECURSIVE Tasks(_, _)
Tasks(s, limit) == IF Splits(s, limit) THEN 1 + 4 * Tasks(s \div 2, limit) ELSE 1
Init == \E n \in Sizes : \E limit \in 0..n : \E plan \in Whole(n) \cup Dealt(n) : \E bt \in BOOLEAN : \E r \in 1..MaxReps :
          /\ Tasks(n, limit) <= MaxTasks
          /\ (r > 1 => Tasks(n, limit) <= 5 /\ bt)
          /\ pr = [on |-> TRUE, n |-> n, bt |-> bt, a |-> PA(n, 0), b |-> PA(n, 5)]
          /\ rc = [limit |-> limit, plan |-> plan, reps |-> r, out |-> [q \in 1..n * n |-> 0], left |-> plan, tk |-> [t \in {} |-> 0]]
\* without Fine the last level computes and copies in one step
Leaf(t) == IF Fine \/ rc.tk[t].up = Top THEN RCompute(t, Block(pr.a, pr.b, pr.n, pr.bt, t[1], t[2], t[3]))
           ELSE /\ rc.tk[t].st = "ready" /\ ~Splits(t[3], rc.limit)
                /\ LET u == rc.tk[t].up IN
                   rc' = [rc EXCEPT !.tk[t].st = "gone",
                            !.tk[u].part = Into(@, u[3], u[1], u[2], t, Block(pr.a, pr.b, pr.n, pr.bt, t[1], t[2], t[3]))]
Next == \/ /\ UNCHANGED pr
           /\ \/ \E p \in rc.left : RGive(p)
              \/ \E t \in DOMAIN rc.tk : Leaf(t) \/ RFork(t) \/ RJoin(t) \/ RFinish(t) \/ RInsert(t, pr.n)
              \/ RAgain
        \/ ROver /\ rc.reps = 1 /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
Exact == ROver => rc.out = ProductOf(pr.a, pr.b, pr.n, pr.bt)
\* tasks never overlap a sibling, and stay where they were given out
Inside == \A t \in DOMAIN rc.tk : t[1] >= 0 /\ t[2] >= 0 /\ t[3] > 0 /\ t[1] + t[3] <= pr.n /\ t[2] + t[3] <= pr.n
Placed == \A t \in DOMAIN rc.tk : MayCompute(rc.plan, Nodes, rc.tk[t].loc, t[1], t[2], t[3])
Apart == \A t, u \in DOMAIN rc.tk :
  t # u /\ rc.tk[t].up = rc.tk[u].up => Cells(t[1], t[2], t[3]) \cap Cells(u[1], u[2], u[3]) = {}
\* a block handed upwards is complete
Whole1 == \A t \in DOMAIN rc.tk : rc.tk[t].st \in {"done", "gone"} => rc.tk[t].part = Block(pr.a, pr.b, pr.n, pr.bt, t[1], t[2], t[3]) \/ ~Fine
=============================================================================
