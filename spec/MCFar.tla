------------------------------- MODULE MCFar --------------------------------
(* Views by residues are the views of Layout: same places, same sizes, and the *)
(* tiles are visited in the same order.                                        *)
EXTENDS Far, FiniteSets
CONSTANTS MaxDim, MaxTile, MaxCount
VARIABLE k      \* tiles visited
FullDirs(l) == [tile |-> l.tile, ext |-> [d \in 1..Len(l.n) |-> l.tile[d] * l.n[d]]]
L == INSTANCE Layout WITH arr <- <<>>, view <- <<>>, it <- <<>>
Res(v) == [j \in 1..Len(Primes) |-> v % Primes[j]]
Init == FarInit /\ LoopInit /\ k = 0
Next ==
  \/ /\ lay.tile = <<>> /\ \E dm \in 1..MaxDim : \E t \in [1..dm -> 1..MaxTile] : \E n \in [1..dm -> 1..MaxCount] : FarNew(t, n)
     /\ UNCHANGED <<nest, k>>
  \/ lay.tile # <<>> /\ FarVisit /\ k' = k + 1 /\ UNCHANGED nest
  \/ lay.tile # <<>> /\ k > 0 /\ left = NoTile /\ FarOver /\ UNCHANGED <<nest, k>>
Spec == Init /\ [][Next]_<<farvars, nest, k>>
SameOrder == (k > 0 /\ tile # NoTile) => tile = L!Unflat(k - 1, lay.n)
Complete == (lay.tile # <<>> /\ left = NoTile) => k = L!NumTiles(FullDirs(lay))
SamePlace == (k > 0 /\ tile # NoTile) => \A c \in L!Coords(lay.tile) :
   Place(lay, tile, c) = Res(L!Base(tile, FullDirs(lay)) + L!Flat(c, lay.tile))
SameSize == k > 0 => SizeRes(lay.tile) = Res(L!TileSize(FullDirs(lay)))
=============================================================================
