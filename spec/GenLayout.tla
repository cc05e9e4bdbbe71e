------------------------------ MODULE GenLayout ------------------------------
(* Random sessions of Layout, emitted as operation lists for replay.           *)
EXTENDS Layout, GenKit
Focus == EnvStr("VF_FOCUS", "tile")
Depth == EnvNat("VF_OPS", 8)
MaxSize == EnvNat("VF_SIZE", 200)

\* choices for one dimension of a dm-dimensional layout: tile extent, tile count
DimChoices(dm) ==
  CASE dm = 1 -> {<<t, n>> \in (1..9) \X (1..7) : t * n <= 36}
    [] dm = 2 -> {<<t, n>> \in (1..6) \X (1..5) : t * n <= 20}
    [] dm = 3 -> {<<t, n>> \in (1..4) \X (1..4) : t * n <= 12}
    [] OTHER  -> {<<t, n>> \in (1..3) \X (1..3) : t * n <= 6}
LayOf(s) == [tile |-> [d \in 1..Len(s) |-> s[d][1]],
             ext  |-> [d \in 1..Len(s) |-> s[d][1] * s[d][2]]]
EnumData(l, base) == [p \in 1..Size(l) |-> base + p]

VARIABLES hist, ty, prep, done
vars == <<lvars, hist, ty, prep, done>>
NoPrep == [on |-> FALSE, dm |-> 0, s |-> <<>>, kind |-> "flat"]
Init == LInit /\ hist = <<>> /\ prep = NoPrep /\ done = FALSE
        /\ ty \in {"double", "int", "float", "string", "aligned"}
Op(r) == hist' = Append(hist, r) /\ UNCHANGED <<ty, done>>
Idle == ~prep.on
\* a new array is prepared dimension by dimension
GPrep(kind) ==
  /\ Idle /\ Len(arr) < 4 /\ \E dm \in 1..4 : prep' = [NoPrep EXCEPT !.on = TRUE, !.dm = dm, !.kind = kind]
  /\ UNCHANGED <<lvars, hist, ty, done>>
GPrepDim ==
  /\ prep.on /\ Len(prep.s) < prep.dm
  /\ \E c \in DimChoices(prep.dm) :
        /\ Size(LayOf(Append(prep.s, c))) <= MaxSize
        /\ prep' = [prep EXCEPT !.s = Append(@, c)]
  /\ UNCHANGED <<lvars, hist, ty, done>>
GNew ==
  /\ prep.on /\ Len(prep.s) = prep.dm
  /\ LET l == LayOf(prep.s) b == 1000 * (Len(arr) + 1) IN
      /\ IF prep.kind = "flat" THEN NewFlat(l, EnumData(l, b)) ELSE NewTiled(l, EnumData(l, b))
      /\ Op([op |-> "new", kind |-> prep.kind, tile |-> l.tile, ext |-> l.ext, base |-> b])
  /\ prep' = NoPrep
GTile == \E h \in 1..Len(arr) : Tile(h) /\ Op([op |-> "tile", h |-> h])
GUntile == \E h \in 1..Len(arr) : Untile(h) /\ Op([op |-> "untile", h |-> h])
GReject == \E h \in 1..Len(arr) : \E g \in 0..5 : \E w \in {"tile", "untile"} :
    Reject(h, g) /\ Op([op |-> "reject", h |-> h, which |-> w, given |-> g])
GBind == Len(view) < 5 /\ \E h \in 1..Len(arr) : \E t \in Coords(TilesDir(arr[h].lay)) :
    Bind(h, t) /\ Op([op |-> "bind", h |-> h, t |-> t])
GRead == \E v \in 1..Len(view) : \E m \in 0..2 : \E c \in Coords(arr[view[v].h].lay.tile) :
    Read(v, c) /\ Op([op |-> "read", v |-> v, c |-> c, mode |-> m])
GWrite == \E v \in 1..Len(view) : \E m \in 0..2 : \E c \in Coords(arr[view[v].h].lay.tile) :
    Write(v, c, 50000 + Len(hist)) /\ Op([op |-> "write", v |-> v, c |-> c, mode |-> m, x |-> 50000 + Len(hist)])
\* a whole iteration; at tile number k (if it exists) offset o gets value x
GIter == \E h \in 1..Len(arr) : arr[h].kind = "tiled" /\
    \E k \in 0..NumTiles(arr[h].lay) : \E o \in {0, TileSize(arr[h].lay) \div 2, TileSize(arr[h].lay) - 1} :
    /\ Op([op |-> "iter", h |-> h, k |-> k, o |-> o, x |-> 70000 + Len(hist)])
    /\ IF k < NumTiles(arr[h].lay)
       THEN arr' = [arr EXCEPT ![h].data[k * TileSize(arr[h].lay) + o + 1] = 70000 + Len(hist)]
       ELSE arr' = arr
    /\ UNCHANGED <<view, it>>
GOps == /\ Idle /\ prep' = prep
  /\ \/ Focus = "tile" /\ GTile
     \/ Focus = "view" /\ (GBind \/ GRead \/ GWrite)
     \/ Focus = "iter" /\ GIter
     \/ Focus = "untile" /\ (GTile \/ GUntile)
     \/ Focus = "reject" /\ GReject
Fresh == (Focus = "view" => Len(arr) < 2) /\
   \/ Focus \in {"tile", "untile", "reject"} /\ GPrep("flat")
   \/ Focus \in {"view", "iter", "untile", "reject"} /\ GPrep("tiled")
Finish == Idle /\ Len(hist) = Depth /\ ~done /\ done' = TRUE
          /\ Emit([ty |-> ty, ops |-> hist]) /\ UNCHANGED <<lvars, hist, ty, prep>>
Next == \/ Len(hist) < Depth /\ (Fresh \/ GPrepDim \/ GNew \/ GOps)
        \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
