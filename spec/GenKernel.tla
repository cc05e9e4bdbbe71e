----------------------------- MODULE GenKernel ------------------------------
(* All kernel calls with n <= VF_N: per size, kernel, edge and chunk length    *)
(* every position of the block.                                                *)
EXTENDS BlockKernel, GenKit, SequencesExt
VARIABLES g, done
vars == <<pr, kn, g, done>>
MaxN == EnvNat("VF_N", 9)
Forms == {"plain", "trans", "blocked", "mult"}
Chunks(n) == 1..n + 3 \cup {2 * n + 5}
Init == /\ ProdInit /\ kn = <<>> /\ done = FALSE
        /\ \E n \in 1..MaxN : \E e \in 1..n : \E f \in Forms : \E ch \in {0} \cup Chunks(n) : \E bt \in BOOLEAN :
             /\ (f = "plain" => ch = 0 /\ ~bt) /\ (f = "trans" => ch = 0 /\ bt)
             /\ (f = "blocked" => ch > 0 /\ bt /\ e % 4 = 0)
             /\ (f = "mult" => (ch \in {0, 1, 2, 3, 4, n, n + 1}))
             /\ g = [n |-> n, e |-> e, form |-> f, ch |-> ch, bt |-> bt]
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED <<pr, kn, g>>
        /\ Emit([n |-> g.n, e |-> g.e, form |-> g.form, ch |-> g.ch, bt |-> g.bt, at |-> SetToSeq(Positions(g.n, g.e))])
Spec == Init /\ [][Next]_vars
=============================================================================
