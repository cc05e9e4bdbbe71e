----------------------------- MODULE MCThreads ------------------------------
(* A team of threads multiplies row by row: every thread has a set of rows,    *)
(* an accumulator of its own and does one multiplication per step, in any      *)
(* interleaving.  Every row assignment, every schedule: the result is the      *)
(* product, no cell is written by two threads, and operands are never written. *)
EXTENDS Product
CONSTANTS N, Threads
A == Mat([kind |-> "poly", c |-> <<3, 5, 7, 2, 1, 4>>], N)
B == Mat([kind |-> "poly", c |-> <<1, 8, 3, 9, 6, 2>>], N)
VARIABLES rows, th, c, writer, bt
vars == <<pr, rows, th, c, writer, bt>>
NoRow == [i |-> -1, j |-> 0, k |-> 0, acc |-> 0]
Init == /\ bt \in BOOLEAN /\ pr = [on |-> TRUE, n |-> N, bt |-> bt, a |-> A, b |-> B, p |-> 0]
        /\ rows \in [0..(N - 1) -> 1..Threads]
        /\ th = [t \in 1..Threads |-> NoRow] /\ c = [k \in 1..N * N |-> 0]
        /\ writer = [k \in 1..N * N |-> {}]
Todo(t) == {r \in 0..(N - 1) : rows[r] = t}
\* threads take their rows in ascending order
Take(t) == /\ th[t].i = -1 /\ Todo(t) # {}
           /\ LET r == CHOOSE r \in Todo(t) : \A q \in Todo(t) : r <= q IN
                th' = [th EXCEPT ![t] = [i |-> r, j |-> 0, k |-> 0, acc |-> 0]]
           /\ UNCHANGED <<pr, rows, c, writer, bt>>
Mul(t) == /\ th[t].i >= 0 /\ th[t].k < N
          /\ th' = [th EXCEPT ![t].acc = @ + A[th[t].i * N + th[t].k + 1] * BAt(B, N, bt, th[t].k, th[t].j), ![t].k = @ + 1]
          /\ UNCHANGED <<pr, rows, c, writer, bt>>
Cell(t) == th[t].i * N + th[t].j + 1
Store(t) == /\ th[t].i >= 0 /\ th[t].k = N
            /\ c' = [c EXCEPT ![Cell(t)] = th[t].acc] /\ writer' = [writer EXCEPT ![Cell(t)] = @ \cup {t}]
            /\ IF th[t].j < N - 1
               THEN th' = [th EXCEPT ![t] = [i |-> @.i, j |-> @.j + 1, k |-> 0, acc |-> 0]] /\ UNCHANGED rows
               ELSE th' = [th EXCEPT ![t] = NoRow] /\ rows' = [rows EXCEPT ![th[t].i] = 0]
            /\ UNCHANGED <<pr, bt>>
Over == \A r \in 0..(N - 1) : rows[r] = 0
Next == (\E t \in 1..Threads : Take(t) \/ Mul(t) \/ Store(t)) \/ (Over /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
Exact == Over => ENABLED Result(c)
OneWriter == \A k \in 1..N * N : Len(c) = N * N /\ \A s, t \in writer[k] : s = t
Final == \A k \in 1..N * N : writer[k] # {} => c[k] = Dot(A, B, N, bt, (k - 1) \div N, (k - 1) % N, N)
=============================================================================
