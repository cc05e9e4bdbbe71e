------------------------------ MODULE MCLayout ------------------------------
(* Exhaustive exploration of short sessions over all layouts with at most      *)
(* MaxSize elements in 1..MaxDim dimensions.                                   *)
EXTENDS Layout, TLC, FiniteSets
CONSTANTS MaxDim, MaxExt, MaxSize, MaxArr, MaxView, Marks

ExtSeqs == UNION {[1..d -> 1..MaxExt] : d \in 1..MaxDim}
Layouts == {l \in {[tile |-> t, ext |-> e] : t \in ExtSeqs, e \in ExtSeqs} :
              ValidLayout(l) /\ Size(l) <= MaxSize}
Enum(l) == [p \in 1..Size(l) |-> p]
\* the numbering is a bijection in lexicographic order (C06)
ASSUME \A e \in ExtSeqs : Prod(e) <= MaxSize =>
   /\ {Flat(c, e) : c \in Coords(e)} = 0..(Prod(e) - 1)
   /\ \A c1, c2 \in Coords(e) : LexLess(c1, c2) <=> Flat(c1, e) < Flat(c2, e)
ASSUME \A l \in Layouts : IsBijection(l) /\ TilesInOrder(l) /\ TilesPartition(l)
                          /\ RoundTrip(Enum(l), l) /\ IsTilingOf(Tiled(Enum(l), l), Enum(l), l)

VARIABLE nw
Init == LInit /\ nw = 0
Room == Len(arr) < MaxArr
Next ==
  \/ /\ Room /\ arr = <<>> /\ nw' = nw
     /\ \E l \in Layouts : NewFlat(l, Enum(l)) \/ NewTiled(l, Enum(l))
  \/ Room /\ nw' = nw /\ \E h \in 1..Len(arr) : Tile(h) \/ Untile(h) \/ Reject(h, Len(arr[h].lay.ext) + 1)
  \/ nw' = nw /\ Len(view) < MaxView /\ \E h \in 1..Len(arr) : \E t \in Coords(TilesDir(arr[h].lay)) : Bind(h, t)
  \/ nw < Marks /\ nw' = nw + 1 /\ \E v \in 1..Len(view) : \E c \in Coords(arr[view[v].h].lay.tile) : Write(v, c, 1000 + nw)
  \/ nw' = nw /\ \E h \in 1..Len(arr) : IterBegin(h)
  \/ nw' = nw /\ IterVisit
  \/ nw < Marks /\ nw' = nw + 1 /\ it.on /\ \E o \in 0..(TileSize(arr[it.h].lay) - 1) : IterVisitWrite(o, 1000 + nw)
  \/ nw' = nw /\ IterEnd
Spec == Init /\ [][Next]_<<lvars, nw>>

TypeOK == \A h \in 1..Len(arr) : Len(arr[h].data) = Size(arr[h].lay)
\* without writes every array is a permutation of the one it came from
Permutation == nw = 0 => \A h \in 1..Len(arr) :
    Range(arr[h].data) = 1..Size(arr[h].lay)
\* one write changes one element of one array
WriteLocal == [][ nw' # nw => Cardinality({<<h, p>> \in (1..Len(arr)) \X (1..MaxSize) :
      p <= Len(arr[h].data) /\ arr'[h].data[p] # arr[h].data[p]}) = 1 ]_<<lvars, nw>>
\* views on different tiles of the same array never alias
NoAlias == \A v, w \in 1..Len(view) : v # w /\ view[v].h = view[w].h /\ view[v].t # view[w].t =>
   {Addr(v, c) : c \in Coords(arr[view[v].h].lay.tile)} \cap
   {Addr(w, c) : c \in Coords(arr[view[w].h].lay.tile)} = {}
SourceUntouched == [][ Len(arr') > Len(arr) => \A h \in 1..Len(arr) : arr'[h] = arr[h] ]_<<lvars, nw>>
=============================================================================
