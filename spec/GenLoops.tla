------------------------------ MODULE GenLoops ------------------------------
(* Loop nests, chosen dimension by dimension.                                  *)
EXTENDS Loops, GenKit
MaxPts == EnvNat("VF_PTS", 300)
Signed == EnvStr("VF_SIGNED", "no") = "yes"
Dims == EnvNat("VF_DIMS", 6)
VARIABLES dm, b, lohi, done
vars == <<nest, dm, b, lohi, done>>
Init == nest = Idle /\ b = <<>> /\ done = FALSE /\ dm \in 1..Dims /\ lohi = <<>>
Los == IF Signed THEN {-7, -3, -1, 0, 1, 4} ELSE {0, 1, 3, 10}
Lens == {-2, 0, 1, 2, 3, 4, 5, 7, 9}
Size == LatticeSize([d \in 1..Len(b') |-> b'[d][1]], [d \in 1..Len(b') |-> b'[d][2]], [d \in 1..Len(b') |-> b'[d][3]])
Lo == /\ Len(b) < dm /\ lohi = <<>> /\ \E l \in Los : \E n \in Lens : l + n >= (IF Signed THEN -20 ELSE 0) /\ lohi' = <<l, l + n>>
      /\ UNCHANGED <<nest, dm, b, done>>
St == /\ lohi # <<>> /\ \E s \in {1, 2, 3, 5, 8} : b' = Append(b, <<lohi[1], lohi[2], s>>)
      /\ Size <= MaxPts /\ lohi' = <<>> /\ UNCHANGED <<nest, dm, done>>
Fin == /\ Len(b) = dm /\ ~done /\ done' = TRUE /\ UNCHANGED <<nest, dm, b, lohi>>
       /\ Emit([lo |-> [d \in 1..dm |-> b[d][1]], hi |-> [d \in 1..dm |-> b[d][2]], st |-> [d \in 1..dm |-> b[d][3]]])
Next == Lo \/ St \/ Fin
Spec == Init /\ [][Next]_vars
=============================================================================
