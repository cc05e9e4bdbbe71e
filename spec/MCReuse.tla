------------------------------ MODULE MCReuse -------------------------------
(* Every interleaving of a few objects on two operand pairs, each call done in *)
(* repetitions of one accumulation step per k, every accumulator starting from *)
(* garbage.                                                                    *)
EXTENDS Reuse
CONSTANTS Slots, MaxReps, MaxOps
VARIABLES acc, run, ops, last
vars == <<pr, ob, acc, run, ops, last>>
PA(n, s) == Mat([kind |-> "poly", c |-> <<3, 5, 7, 2 + s, 1, 4>>], n)
Mats == TLCEval([m \in 1..2 |-> [n |-> m, bt |-> m = 2, a |-> PA(m, 1), b |-> PA(m, 2)]])
Idle == [k |-> -1, rep |-> 0, at |-> 0]
Init == /\ ProdInit /\ ReuseInit /\ ops = 0 /\ run = Idle /\ last = <<>>
        /\ acc = [k \in 0..(Slots - 1) |-> <<>>]
M(k) == Mats[ob[k].mats]
New(k) == /\ run = Idle /\ ops < MaxOps /\ ob[k] = NoObj
          /\ \E m \in 1..2 : \E r \in 1..MaxReps :
               Make(k, m, r) /\ acc' = [acc EXCEPT ![k] = [q \in 1..m * m |-> 77]]
          /\ ops' = ops + 1 /\ UNCHANGED <<pr, run, last>>
Del(k) == run = Idle /\ ops < MaxOps /\ Drop(k) /\ ops' = ops + 1 /\ UNCHANGED <<pr, acc, run, last>>
Call(k) == /\ run = Idle /\ ops < MaxOps /\ ob[k] # NoObj
           /\ run' = [k |-> k, rep |-> 1, at |-> 0] /\ ops' = ops + 1 /\ last' = <<>>
           /\ acc' = [acc EXCEPT ![k] = [q \in DOMAIN @ |-> 0]]
           /\ UNCHANGED <<pr, ob>>
\* one k of one repetition
Step == /\ run # Idle /\ run.at < M(run.k).n
        /\ acc' = [acc EXCEPT ![run.k] = [q \in DOMAIN @ |->
             LET n == M(run.k).n IN
             @[q] + M(run.k).a[((q - 1) \div n) * n + run.at + 1] * BAt(M(run.k).b, n, M(run.k).bt, run.at, (q - 1) % n)]]
        /\ run' = [run EXCEPT !.at = @ + 1] /\ UNCHANGED <<pr, ob, ops, last>>
Again == /\ run # Idle /\ run.at = M(run.k).n /\ run.rep < ob[run.k].reps
         /\ acc' = [acc EXCEPT ![run.k] = [q \in DOMAIN @ |-> 0]]
         /\ run' = [run EXCEPT !.at = 0, !.rep = @ + 1] /\ UNCHANGED <<pr, ob, ops, last>>
Ret == /\ run # Idle /\ run.at = M(run.k).n /\ run.rep = ob[run.k].reps
       /\ last' = <<run.k, ob[run.k].mats, acc[run.k]>> /\ run' = Idle /\ UNCHANGED <<pr, ob, acc, ops>>
Next == (\E k \in 0..(Slots - 1) : New(k) \/ Del(k) \/ Call(k)) \/ Step \/ Again \/ Ret \/ (run = Idle /\ ops = MaxOps /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
\* whatever happened before, an answer is the product
Same == last # <<>> => last[3] = ProductOf(Mats[last[2]].a, Mats[last[2]].b, Mats[last[2]].n, Mats[last[2]].bt)
Fresh == run # Idle => ob[run.k] # NoObj
=============================================================================
