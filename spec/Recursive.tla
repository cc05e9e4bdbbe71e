------------------------------ MODULE Recursive -----------------------------
(* Task-parallel multiplication.  The result is given out as square packages   *)
(* [x, y, s] to nodes.  A package is a task at its node; a task either computes *)
(* its block or, if the block is larger than the limit and can be halved,      *)
(* spawns one task per quarter at the same node and waits for continuations    *)
(* that copy the quarters into its own block.  Finished packages are inserted  *)
(* into the result by continuations.  All of this in any order; the whole is   *)
(* done reps times.                                                            *)
EXTENDS Product, FiniteSets
VARIABLE rc      \* [limit, plan, reps, tk, left, out]
\* block sizes: a limit of 0 means no blocking
Splits(s, limit) == limit # 0 /\ s > limit /\ s % 2 = 0
Quarters(x, y, s) == LET h == s \div 2 IN {<<x, y, h>>, <<x + h, y, h>>, <<x, y + h, h>>, <<x + h, y + h, h>>}
Cells(x, y, s) == (x..x + s - 1) \X (y..y + s - 1)
\* a plan: set of [loc, x, y, s]
NewTask(loc, up, s) == [loc |-> loc, up |-> up, st |-> "ready", part |-> [q \in 1..s * s |-> 0]]
Top == <<-1, -1, -1>>
RStart(limit, plan, reps, n) ==
  rc' = [limit |-> limit, plan |-> plan, reps |-> reps, out |-> [q \in 1..n * n |-> 0],
         left |-> plan, tk |-> [t \in {} |-> 0]]
\* hand a package to its node
RGive(p) == /\ p \in rc.left /\ <<p.x, p.y, p.s>> \notin DOMAIN rc.tk
            /\ rc' = [rc EXCEPT !.left = @ \ {p}, !.tk = (<<p.x, p.y, p.s>> :> NewTask(p.loc, Top, p.s)) @@ @]
RCompute(t, block) == /\ rc.tk[t].st = "ready" /\ ~Splits(t[3], rc.limit)
                      /\ rc' = [rc EXCEPT !.tk[t].st = "done", !.tk[t].part = block]
RFork(t) == /\ rc.tk[t].st = "ready" /\ Splits(t[3], rc.limit)
            /\ rc' = [rc EXCEPT !.tk = [u \in Quarters(t[1], t[2], t[3]) |-> NewTask(rc.tk[t].loc, t, u[3])]
                                         @@ [@ EXCEPT ![t].st = "waits"]]
\* the continuation of t: copy into the block above and go
Into(m, w, x0, y0, t, part) ==
  [q \in DOMAIN m |-> LET x == x0 + ((q - 1) \div w) y == y0 + ((q - 1) % w) IN
     IF <<x, y>> \in Cells(t[1], t[2], t[3]) THEN part[(x - t[1]) * t[3] + (y - t[2]) + 1] ELSE m[q]]
RJoin(t) == /\ rc.tk[t].st = "done" /\ rc.tk[t].up # Top
            /\ LET u == rc.tk[t].up IN
               rc' = [rc EXCEPT !.tk[t].st = "gone", !.tk[u].part = Into(@, u[3], u[1], u[2], t, rc.tk[t].part)]
RFinish(t) == /\ rc.tk[t].st = "waits" /\ \A u \in Quarters(t[1], t[2], t[3]) : rc.tk[u].st = "gone"
              /\ rc' = [rc EXCEPT !.tk[t].st = "done"]
RInsert(t, n) == /\ rc.tk[t].st = "done" /\ rc.tk[t].up = Top
                 /\ rc' = [rc EXCEPT !.tk[t].st = "gone", !.out = Into(@, n, 0, 0, t, rc.tk[t].part)]
ROver == rc.left = {} /\ \A t \in DOMAIN rc.tk : rc.tk[t].st = "gone"
RAgain == ROver /\ rc.reps > 1 /\ rc' = [rc EXCEPT !.reps = @ - 1, !.left = rc.plan, !.tk = [t \in {} |-> 0]]
\* what a node may compute: with several nodes the first one nothing, every
\* other one only parts of its packages
MayCompute(plan, nodes, loc, x, y, s) ==
  /\ (nodes > 1 => loc # 0)
  /\ \E p \in plan : p.loc = loc /\ p.x <= x /\ p.y <= y /\ x + s <= p.x + p.s /\ y + s <= p.y + p.s
=============================================================================
