------------------------------ MODULE Matrices ------------------------------
(* Square and rectangular matrices as flat row-major sequences: builders,      *)
(* transposition and the printed form.  A session owns a list of matrices;     *)
(* an operation adds one and leaves all others as they are.                    *)
EXTENDS Integers, Sequences, TLC

Identity(n) == [k \in 1..n * n |-> IF (k - 1) \div n = (k - 1) % n THEN 1 ELSE 0]
Enumerating(n) == [k \in 1..n * n |-> k - 1]
\* m has the given rows and columns; the result has cols rows and rows columns
Transposed(m, rows, cols) ==
  [k \in 1..rows * cols |-> m[((k - 1) % rows) * cols + ((k - 1) \div rows) + 1]]

(* Random values are known by the fields of their representation:              *)
(* <<sign, exponent, high mantissa, low mantissa>>; [0,1) is sign 0 and an     *)
(* exponent below that of 1.0.                                                 *)
InUnit(v) == (v[1] = 0 /\ v[2] < 1023)

VARIABLES mats, rnd
mvars == <<mats, rnd>>
MatInit == mats = <<>> /\ rnd = <<>>
Add(m) == mats' = Append(mats, m)
Load(m) == Add(m) /\ UNCHANGED rnd
Ident(n) == Add(Identity(n)) /\ UNCHANGED rnd
Enum(n) == Add(Enumerating(n)) /\ UNCHANGED rnd
Transpose(k, rows, cols) ==
  /\ k \in 1..Len(mats) /\ Len(mats[k]) = rows * cols
  /\ Add(Transposed(mats[k], rows, cols)) /\ UNCHANGED rnd
\* rnd: pairs <<n, values>>; the first call for an n fixes the values for good
Known(n) == {j \in 1..Len(rnd) : rnd[j][1] = n}
Rand(n, v) ==
  /\ Len(v) = n * n /\ \A k \in 1..Len(v) : InUnit(v[k])
  /\ IF Known(n) = {} THEN rnd' = Append(rnd, <<n, v>>)
     ELSE (\A j \in Known(n) : rnd[j][2] = v) /\ UNCHANGED rnd
  /\ UNCHANGED mats

(* Printed form.  txt: the printed form of every element; "" stands for an     *)
(* element the matrix does not have: printing ends there.                      *)
RECURSIVE RowText(_, _, _)
\* <<text, complete>> of elements idx[c], idx[c+1], ...
RowText(txt, idx, c) ==
  IF c > Len(idx) THEN <<"\n", TRUE>>
  ELSE LET sep == IF c > 1 THEN ", " ELSE "" IN
       IF idx[c] > Len(txt) THEN <<sep, FALSE>>
       ELSE LET r == RowText(txt, idx, c + 1) IN <<sep \o txt[idx[c]] \o r[1], r[2]>>
RECURSIVE Lines(_, _, _, _, _)
Lines(txt, rows, cols, tr, r) ==
  IF r > rows THEN <<"", TRUE>>
  ELSE LET idx == [c \in 1..cols |-> IF tr THEN (c - 1) * rows + r ELSE (r - 1) * cols + c]
           x == RowText(txt, idx, 1)
       IN IF ~x[2] THEN x
          ELSE LET y == Lines(txt, rows, cols, tr, r + 1) IN <<x[1] \o y[1], y[2]>>
\* rows and cols are those of the printed text
Printed(txt, rows, cols, tr) == Lines(txt, rows, cols, tr, 1)
=============================================================================
