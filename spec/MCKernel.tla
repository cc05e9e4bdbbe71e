------------------------------ MODULE MCKernel ------------------------------
(* Every size, block position, edge and chunk length within the bounds, with   *)
(* the accumulations of a chunk in any order.                                  *)
EXTENDS BlockKernel
CONSTANTS MaxN, MaxE
vars == <<pr, kn>>
MA(n) == Mat([kind |-> "poly", c |-> <<3, 5, 7, 2, 1, 4>>], n)
MB(n) == Mat([kind |-> "poly", c |-> <<1, 8, 3, 9, 6, 2>>], n)
Init == /\ \E n \in 1..MaxN : \E e \in 1..MaxE : \E x, y \in 0..MaxN : \E ch \in 1..MaxN + 1 :
             /\ InMatrix(n, x, y, e)
             /\ kn = [n |-> n, x |-> x, y |-> y, e |-> e, ch |-> ch, kb |-> 0, ph |-> "copy", todo |-> {},
                      as |-> [q \in 1..e * ch |-> -77], bs |-> [q \in 1..e * ch |-> -88], c |-> [q \in 1..e * e |-> 0]]
        /\ pr = [on |-> TRUE, n |-> kn.n, bt |-> TRUE, a |-> MA(kn.n), b |-> MB(kn.n)]
Next == \/ (KCopy(pr.a, pr.b) \/ KAcc \/ KNext) /\ UNCHANGED pr
        \/ KOver /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
Exact == KOver => kn.c = Block(pr.a, pr.b, pr.n, TRUE, kn.x, kn.y, kn.e)
\* before the chunk at kb, the partial sums over k < kb
Partial == \A q \in 1..kn.e * kn.e : LET i == (q - 1) \div kn.e j == (q - 1) % kn.e IN
  kn.c[q] = Dot(pr.a, pr.b, pr.n, TRUE, kn.x + i, kn.y + j,
                KMin(pr.n, kn.kb + (IF kn.ph = "acc" /\ <<i, j>> \notin kn.todo THEN kn.ch ELSE 0)))
=============================================================================
