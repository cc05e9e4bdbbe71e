------------------------------- MODULE Shapes -------------------------------
(* Index arithmetic used by every other module: extents, row-major numbering, *)
(* lattices.  Coordinates are sequences, 0-based values; data are sequences   *)
(* (1-based positions), so element number p lives at data[p+1].               *)
EXTENDS Integers, Sequences

RECURSIVE ProdTo(_, _)
ProdTo(s, n) == IF n = 0 THEN 1 ELSE s[n] * ProdTo(s, n - 1)
Prod(s) == ProdTo(s, Len(s))

(* Row-major number of coordinate c in extents e, by Horner's scheme.         *)
RECURSIVE FlatTo(_, _, _)
FlatTo(c, e, n) == IF n = 0 THEN 0 ELSE FlatTo(c, e, n - 1) * e[n] + c[n]
Flat(c, e) == FlatTo(c, e, Len(e))

(* Its inverse: the coordinate with number k.                                 *)
RECURSIVE ProdFrom(_, _)
ProdFrom(e, n) == IF n > Len(e) THEN 1 ELSE e[n] * ProdFrom(e, n + 1)
Unflat(k, e) == [d \in 1..Len(e) |-> (k \div ProdFrom(e, d + 1)) % e[d]]

Coords(e) == {Unflat(k, e) : k \in 0..(Prod(e) - 1)}
InExtents(c, e) == Len(c) = Len(e) /\ \A d \in 1..Len(e) : c[d] \in 0..(e[d] - 1)

(* Lexicographic order of coordinates.                                        *)
LexLess(c1, c2) ==
  \E d \in 1..Len(c1) : c1[d] < c2[d] /\ \A q \in 1..(d - 1) : c1[q] = c2[q]

(* Lattice lo, lo+st, ... < hi per dimension.                                  *)
CeilDiv(a, b) == (a + b - 1) \div b
Counts(lo, hi, st) ==
  [d \in 1..Len(lo) |-> IF hi[d] > lo[d] THEN CeilDiv(hi[d] - lo[d], st[d]) ELSE 0]
LatticeSize(lo, hi, st) == Prod(Counts(lo, hi, st))
LatticePoint(k, lo, hi, st) ==
  LET u == Unflat(k, Counts(lo, hi, st))
  IN  [d \in 1..Len(lo) |-> lo[d] + u[d] * st[d]]
LatticeSet(lo, hi, st) ==
  {LatticePoint(k, lo, hi, st) : k \in 0..(LatticeSize(lo, hi, st) - 1)}

Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
SeqOf(n, F(_)) == [p \in 1..n |-> F(p - 1)]
Range(s) == {s[p] : p \in 1..Len(s)}
=============================================================================
