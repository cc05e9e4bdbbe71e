-------------------------------- MODULE Far ---------------------------------
(* Views on tiled arrays that are too large to be written down: positions and  *)
(* sizes by their residues (Loops).                                            *)
EXTENDS Loops, TLC
VARIABLES lay, tile, left   \* layout (extents and number of tiles per direction); coordinates of the bound tile; tiles still to be visited
farvars == <<lay, tile, left>>
NoTile == <<>>
Dirs(l) == l.n
RECURSIVE ProdMod(_, _, _)
ProdMod(e, p, n) == IF n = 0 THEN 1 ELSE (ProdMod(e, p, n - 1) * (e[n] % p)) % p
SizeRes(e) == [j \in 1..Len(Primes) |-> ProdMod(e, Primes[j], Len(e))]
\* tile by tile, row-major inside
Place(l, t, c) == [j \in 1..Len(Primes) |->
   LET p == Primes[j] IN (FlatModTo(t, Dirs(l), p, Len(t)) * ProdMod(l.tile, p, Len(l.tile)) + FlatModTo(c, l.tile, p, Len(c))) % p]
FarInit == lay = [tile |-> <<>>, n |-> <<>>] /\ tile = NoTile /\ left = <<>>
FarNew(t, e) == lay' = [tile |-> t, n |-> e] /\ tile' = NoTile /\ left' = [d \in 1..Len(e) |-> 0]
FarBind(t) == tile' = t /\ UNCHANGED <<lay, left>>
\* the tile visited next: one after the other in row-major order
Succ(t, l) ==
  LET can == {d \in 1..Len(t) : t[d] + 1 < Dirs(l)[d]}
      D == CHOOSE d \in can : \A q \in can : q <= d
  IN IF can = {} THEN NoTile ELSE [d \in 1..Len(t) |-> IF d < D THEN t[d] ELSE IF d = D THEN t[d] + 1 ELSE 0]
FarVisit == left # NoTile /\ tile' = left /\ left' = Succ(left, lay) /\ UNCHANGED lay
FarOver == left = NoTile /\ tile' = NoTile /\ UNCHANGED <<lay, left>>
\* an access to element c of the bound tile
FarAt(t, dirs, c, v, size) == t = tile /\ dirs = Dirs(lay) /\ v = Place(lay, tile, c) /\ size = SizeRes(lay.tile) /\ UNCHANGED farvars
=============================================================================
