------------------------------ MODULE GenReuse ------------------------------
(* All histories of VF_OPS operations on two objects that end in a call.       *)
EXTENDS Reuse, GenKit
VARIABLES hist, done
vars == <<pr, ob, hist, done>>
MaxOps == EnvNat("VF_OPS", 5)
NumMats == EnvNat("VF_MATS", 2)
Init == ProdInit /\ ReuseInit /\ hist = <<>> /\ done = FALSE
Used(k) == \E q \in 1..Len(hist) : hist[q][2] = k
Add(x) == hist' = Append(hist, x) /\ UNCHANGED <<pr, done>>
Step == /\ Len(hist) < MaxOps
        /\ \E k \in 0..1 :
             /\ k = 1 => Used(0)
             /\ \/ \E m \in 1..NumMats : \E r \in 1..3 :
                     /\ (m > 1 => hist # <<>>) /\ Make(k, m, IF r = 3 THEN 4 ELSE r) /\ Add(<<"new", k, m, IF r = 3 THEN 4 ELSE r>>)
                \/ Drop(k) /\ Add(<<"del", k>>)
                \/ ob[k] # NoObj /\ UNCHANGED ob /\ Add(<<"mul", k>>)
Calls == Cardinality({q \in 1..Len(hist) : hist[q][1] = "mul"})
Fin == /\ ~done /\ Len(hist) = MaxOps /\ hist[MaxOps][1] = "mul" /\ Calls > 1
       /\ done' = TRUE /\ UNCHANGED <<pr, ob, hist>> /\ Emit([hist |-> hist])
Next == (~done /\ Step) \/ Fin
Spec == Init /\ [][Next]_vars
=============================================================================
