------------------------------ MODULE MCPanels ------------------------------
(* Every size and block shape within the bounds, padded and clipped, blocks    *)
(* processed in any interleaving, several repetitions.                         *)
EXTENDS Panels
CONSTANTS MaxN, MaxB, MaxBlocks
vars == <<pr, pn>>
PA(n) == Mat([kind |-> "poly", c |-> <<3, 5, 7, 2, 1, 4>>], n)
PB(n) == Mat([kind |-> "poly", c |-> <<1, 8, 3, 9, 6, 2>>], n)
Init == /\ \E n \in 1..MaxN : \E bx, by, bk \in 1..MaxB : \E m \in {"pad", "clip"} : \E r \in 1..2 :
             /\ CeilDiv(n, bx) * CeilDiv(n, by) <= (IF r = 1 THEN MaxBlocks ELSE 2)
             /\ pn = [n |-> n, bx |-> bx, by |-> by, bk |-> bk, mode |-> m, reps |-> r, out |-> [q \in 1..n * n |-> 0],
                      wr |-> [q \in 1..n * n |-> 0], k |-> [p \in PBlocks(n, bx, by) |-> -1],
                      acc |-> [p \in PBlocks(n, bx, by) |-> [q \in 1..bx * by |-> 99]]]
        /\ \E bt \in BOOLEAN : pr = [on |-> TRUE, n |-> pn.n, bt |-> bt, a |-> PA(pn.n), b |-> PB(pn.n)]
Next == \/ (\E p \in DOMAIN pn.k : PBegin(p) \/ PPanel(p, pr.a, pr.b, pr.bt) \/ PStore(p)) /\ UNCHANGED pr
        \/ PAgain /\ UNCHANGED pr
        \/ (POver /\ pn.reps = 1) /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
Exact == POver => pn.out = ProductOf(pr.a, pr.b, pr.n, pr.bt)
Once == \A q \in DOMAIN pn.wr : pn.wr[q] <= 1 /\ (POver => pn.wr[q] = 1)
\* what is copied out is final from then on
Final == \A q \in DOMAIN pn.wr : pn.wr[q] = 1 => pn.out[q] = Dot(pr.a, pr.b, pr.n, pr.bt, (q - 1) \div pr.n, (q - 1) % pr.n, pr.n)
=============================================================================
