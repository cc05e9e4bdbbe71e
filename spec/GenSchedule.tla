---------------------------- MODULE GenSchedule -----------------------------
(* All parameters within small bounds, and load vectors for the stop test.     *)
EXTENDS Schedule, GenKit
VARIABLES g, done
MaxN == EnvNat("VF_N", 12)
MaxNodes == EnvNat("VF_NODES", 5)
Rels == {<<0, 1>>, <<1, 20>>, <<1, 3>>, <<1, 1>>, <<5, 2>>}
Init == /\ sd = 0 /\ done = FALSE
        /\ \E n \in 1..MaxN \cup {16, 20, 24, 32} : \E min \in {0, 1, 2, 3, 4, 6} : \E ad \in {0, 1, 2, 5, 9, 40, n * n} : \E r \in Rels :
             g = [n |-> n, min |-> min, ad |-> ad, rn |-> r[1], rd |-> r[2]]
Vals == {0, g.ad, g.ad + 1, 7, 20, 21, 40}
\* loads: permutations of interesting ones
LoadVectors == {<<v>> : v \in Vals} \cup {<<v, w>> : v \in Vals, w \in Vals} \cup {<<v, w, u>> : v \in {0, 20, g.ad}, w \in {20, 21, 20 + g.ad}, u \in {40, 20, 0}}
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED <<sd, g>>
        /\ Emit([n |-> g.n, min |-> g.min, ad |-> g.ad, rn |-> g.rn, rd |-> g.rd,
                 loads |-> SetToSeq(LoadVectors)])
Spec == Init /\ [][Next]_<<sd, g, done>>
=============================================================================
