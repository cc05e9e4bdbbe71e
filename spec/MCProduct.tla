----------------------------- MODULE MCProduct ------------------------------
(* Residue classes decide products: for operands that depend on indices modulo p *)
(* the class record of a matrix is accepted iff the matrix is the product.       *)
EXTENDS Product
VARIABLES n, p, bt, fa, fb, c
vars == <<pr, n, p, bt, fa, fb, c>>
Forms(q) == {[kind |-> "res", c |-> <<x, y, z, 1, 2, 3, q>>] : x \in {1, 4}, y \in {2, 5}, z \in {3}}
FA == Mat(fa, n)
FB == Mat(fb, n)
Init == /\ ProdInit /\ n \in 1..4 /\ p \in 1..3 /\ bt \in BOOLEAN
        /\ fa \in Forms(p) /\ fb \in Forms(p) /\ c = ProductOf(FA, FB, n, bt)
\* one element wrong, one missing
Next == /\ \/ \E k \in 1..n * n : c' = [c EXCEPT ![k] = @ + 1]
           \/ c' = SubSeq(c, 1, Len(c) - 1)
        /\ c = ProductOf(FA, FB, n, bt) /\ UNCHANGED <<pr, n, p, bt, fa, fb>>
Spec == Init /\ [][Next]_vars
Class(r, s) == {c[k] : k \in {k \in 1..Len(c) : ((k - 1) \div n) % p = r /\ ((k - 1) % n) % p = s}}
Low(S) == CHOOSE x \in S : \A y \in S : x <= y
High(S) == CHOOSE x \in S : \A y \in S : x >= y
Record == [q \in 1..p * p |-> LET S == Class((q - 1) \div p, (q - 1) % p) IN IF S = {} THEN <<>> ELSE <<Low(S), High(S)>>]
Decides == IsProductByClass(Len(c), Record, Mat(fa, p), Mat(fb, p), n, p, bt) <=> c = ProductOf(FA, FB, n, bt)
=============================================================================
