------------------------------- MODULE Layout -------------------------------
(* The tiled memory layout: a session in which arrays are created, tiled,     *)
(* untiled, viewed tile by tile and iterated over.  A layout is               *)
(*   [tile |-> <<tile extents>>, ext |-> <<extents>>], tile[d] divides ext[d]. *)
EXTENDS Shapes

TilesDir(l) == [d \in 1..Len(l.ext) |-> l.ext[d] \div l.tile[d]]
TileSize(l) == Prod(l.tile)
NumTiles(l) == Prod(TilesDir(l))
Size(l) == Prod(l.ext)
ValidLayout(l) ==
  /\ Len(l.tile) = Len(l.ext)
  /\ \A d \in 1..Len(l.ext) : l.tile[d] > 0 /\ l.ext[d] % l.tile[d] = 0

(* Where coordinate c lives in the tiled array: tiles in row-major tile order, *)
(* elements in row-major order inside the tile.                               *)
TileOf(c, l) == [d \in 1..Len(c) |-> c[d] \div l.tile[d]]
InnerOf(c, l) == [d \in 1..Len(c) |-> c[d] % l.tile[d]]
Base(t, l) == Flat(t, TilesDir(l)) * TileSize(l)
TiledPos(c, l) == Base(TileOf(c, l), l) + Flat(InnerOf(c, l), l.tile)

(* The coordinate stored at position p of the tiled array.                    *)
CoordAt(p, l) ==
  LET t == Unflat(p \div TileSize(l), TilesDir(l))
      i == Unflat(p % TileSize(l), l.tile)
  IN  [d \in 1..Len(l.ext) |-> t[d] * l.tile[d] + i[d]]

Tiled(data, l) ==
  [p \in 1..Len(data) |-> data[Flat(CoordAt(p - 1, l), l.ext) + 1]]
Untiled(data, l) ==
  [p \in 1..Len(data) |-> data[TiledPos(Unflat(p - 1, l.ext), l) + 1]]

(* Contents of tile t of a tiled array.                                       *)
TileData(data, t, l) == [q \in 1..TileSize(l) |-> data[Base(t, l) + q]]

-----------------------------------------------------------------------------
(* The session.  arr[h] is a stored array; view[v] a bound view; it the        *)
(* iteration in progress.                                                     *)
VARIABLES arr, view, it
lvars == <<arr, view, it>>

NoIter == [on |-> FALSE, h |-> 0, k |-> 0]
LInit == arr = <<>> /\ view = <<>> /\ it = NoIter

NewFlat(l, data) ==
  /\ ~it.on /\ ValidLayout(l) /\ Len(data) = Size(l)
  /\ arr' = Append(arr, [kind |-> "flat", lay |-> l, data |-> data])
  /\ UNCHANGED <<view, it>>
NewTiled(l, data) ==
  /\ ~it.on /\ ValidLayout(l) /\ Len(data) = Size(l)
  /\ arr' = Append(arr, [kind |-> "tiled", lay |-> l, data |-> data])
  /\ UNCHANGED <<view, it>>

(* Tiling and untiling make a new array and leave the source alone.           *)
Tile(h) ==
  /\ ~it.on /\ h \in 1..Len(arr) /\ arr[h].kind = "flat"
  /\ arr' = Append(arr, [kind |-> "tiled", lay |-> arr[h].lay,
                         data |-> Tiled(arr[h].data, arr[h].lay)])
  /\ UNCHANGED <<view, it>>
Untile(h) ==
  /\ ~it.on /\ h \in 1..Len(arr) /\ arr[h].kind = "tiled"
  /\ arr' = Append(arr, [kind |-> "flat", lay |-> arr[h].lay,
                         data |-> Untiled(arr[h].data, arr[h].lay)])
  /\ UNCHANGED <<view, it>>
(* A layout description of the wrong dimensionality is refused: no array.     *)
Reject(h, given) ==
  /\ ~it.on /\ h \in 1..Len(arr) /\ given # Len(arr[h].lay.ext)
  /\ UNCHANGED lvars

Bind(h, t) ==
  /\ ~it.on /\ h \in 1..Len(arr) /\ arr[h].kind = "tiled"
  /\ InExtents(t, TilesDir(arr[h].lay))
  /\ view' = Append(view, [h |-> h, t |-> t])
  /\ UNCHANGED <<arr, it>>
Addr(v, c) ==      \* position in the array of inner coordinate c of view v
  LET l == arr[view[v].h].lay IN Base(view[v].t, l) + Flat(c, l.tile)
Value(v, c) == arr[view[v].h].data[Addr(v, c) + 1]
Read(v, c) ==
  /\ v \in 1..Len(view) /\ InExtents(c, arr[view[v].h].lay.tile)
  /\ UNCHANGED lvars
Write(v, c, x) ==
  /\ ~it.on /\ v \in 1..Len(view) /\ InExtents(c, arr[view[v].h].lay.tile)
  /\ arr' = [arr EXCEPT ![view[v].h].data[Addr(v, c) + 1] = x]
  /\ UNCHANGED <<view, it>>

IterBegin(h) ==
  /\ ~it.on /\ h \in 1..Len(arr) /\ arr[h].kind = "tiled"
  /\ it' = [on |-> TRUE, h |-> h, k |-> 0] /\ UNCHANGED <<arr, view>>
IterTile == Unflat(it.k, TilesDir(arr[it.h].lay))
(* the callback is called for the next tile; it may write one element         *)
IterVisit ==
  /\ it.on /\ it.k < NumTiles(arr[it.h].lay)
  /\ it' = [it EXCEPT !.k = @ + 1] /\ UNCHANGED <<arr, view>>
IterVisitWrite(o, x) ==
  /\ it.on /\ it.k < NumTiles(arr[it.h].lay)
  /\ o \in 0..(TileSize(arr[it.h].lay) - 1)
  /\ arr' = [arr EXCEPT ![it.h].data[Base(IterTile, arr[it.h].lay) + o + 1] = x]
  /\ it' = [it EXCEPT !.k = @ + 1] /\ UNCHANGED view
IterEnd ==
  /\ it.on /\ it.k = NumTiles(arr[it.h].lay)
  /\ it' = NoIter /\ UNCHANGED <<arr, view>>

-----------------------------------------------------------------------------
(* Properties of the layout itself.                                           *)
(* Stated independently of Tiled/Untiled.                                     *)
IsTilingOf(out, src, l) ==
  /\ Len(out) = Len(src)
  /\ \A c \in Coords(l.ext) : out[TiledPos(c, l) + 1] = src[Flat(c, l.ext) + 1]
IsBijection(l) ==
  {TiledPos(c, l) : c \in Coords(l.ext)} = 0..(Size(l) - 1)
TilesInOrder(l) ==    \* tile after tile, row-major inside
  \A p, q \in 0..(Size(l) - 1) : p < q =>
     LET a == CoordAt(p, l) b == CoordAt(q, l)
     IN \/ LexLess(TileOf(a, l), TileOf(b, l))
        \/ TileOf(a, l) = TileOf(b, l) /\ LexLess(InnerOf(a, l), InnerOf(b, l))
RoundTrip(data, l) ==
  Untiled(Tiled(data, l), l) = data /\ Tiled(Untiled(data, l), l) = data
TilesPartition(l) ==
  \A t1, t2 \in Coords(TilesDir(l)) : t1 # t2 =>
     (Base(t1, l)..(Base(t1, l) + TileSize(l) - 1)) \cap
     (Base(t2, l)..(Base(t2, l) + TileSize(l) - 1)) = {}
=============================================================================
