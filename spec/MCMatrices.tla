----------------------------- MODULE MCMatrices -----------------------------
(* All sessions of a few operations over small matrices.                       *)
EXTENDS Matrices
CONSTANTS MaxN, MaxMats
R(x) == <<0, 1000 + x, x, x>>
Vals == {1, 2}
Next ==
  /\ Len(mats) < MaxMats
  /\ \/ \E n \in 0..MaxN : Ident(n) \/ Enum(n)
     \/ \E r \in 1..2, c \in 1..2 : \E m \in [1..r * c -> Vals] : Load(m)
     \/ \E k \in 1..Len(mats) : \E r \in 0..4, c \in 0..4 : Transpose(k, r, c)
     \/ Len(rnd) < 2 /\ \E n \in 1..1 : \E x \in 1..2 : Rand(n, [k \in 1..n * n |-> R(x)])
Spec == MatInit /\ [][Next]_mvars
Shapes(m) == {p \in (0..4) \X (0..4) : p[1] * p[2] = Len(m)}
TwiceIsSame == \A k \in 1..Len(mats) : \A p \in Shapes(mats[k]) :
  Transposed(Transposed(mats[k], p[1], p[2]), p[2], p[1]) = mats[k]
ElementsMove == \A k \in 1..Len(mats) : \A p \in Shapes(mats[k]) :
  \A i \in 1..p[1], j \in 1..p[2] :
    Transposed(mats[k], p[1], p[2])[(j - 1) * p[1] + i] = mats[k][(i - 1) * p[2] + j]
Neutral == \A n \in 0..MaxN : Transposed(Identity(n), n, n) = Identity(n)
OneValue == \A i, j \in 1..Len(rnd) : rnd[i][1] = rnd[j][1] => i = j
T2(m) == [k \in 1..Len(m) |-> ToString(m[k])]
PrintAgree == \A k \in 1..Len(mats) : \A p \in Shapes(mats[k]) :
  Printed(T2(mats[k]), p[2], p[1], TRUE) = Printed(T2(Transposed(mats[k], p[1], p[2])), p[2], p[1], FALSE)
OldKept == [][\A k \in 1..Len(mats) : mats'[k] = mats[k]]_mvars
=============================================================================
