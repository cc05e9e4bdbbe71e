----------------------------- MODULE TraceLayout -----------------------------
(* Is a recorded session a behaviour of Layout, with the recorded outputs?     *)
EXTENDS Layout, TraceKit
VARIABLES cs, i
tvars == <<lvars, cs, i>>
E == Cases[cs].ev[i]
Is(name) == i <= Len(Cases[cs].ev) /\ E.e = name /\ i' = i + 1 /\ cs' = cs
Init == LInit /\ cs \in 1..NumCases /\ i = 1
Lay == [tile |-> E.tile, ext |-> E.ext]

TNew == Is("new") /\ (IF E.kind = "flat" THEN NewFlat(Lay, E.data) ELSE NewTiled(Lay, E.data))
\* the new array is the logged one and the source is as it was
TTile == Is("tile") /\ Tile(E.h) /\ arr'[Len(arr')].data = E.out /\ arr[E.h].data = E.src
TUntile == Is("untile") /\ Untile(E.h) /\ arr'[Len(arr')].data = E.out /\ arr[E.h].data = E.src
TReject == Is("reject") /\ Reject(E.h, E.given) /\ E.res = "library" /\ arr[E.h].data = E.src
TBind == /\ Is("bind") /\ Bind(E.h, E.t)
         /\ E.idx = E.t /\ E.dirs = TilesDir(arr[E.h].lay) /\ E.size = TileSize(arr[E.h].lay)
TRead == Is("read") /\ Read(E.v, E.c) /\ E.val = Value(E.v, E.c)
TWrite == Is("write") /\ Write(E.v, E.c, E.x) /\ E.all = [h \in 1..Len(arr) |-> arr'[h].data]
TIterB == Is("iterb") /\ IterBegin(E.h)
TVisit == /\ Is("visit") /\ it.on /\ it.k < NumTiles(arr[it.h].lay)
          /\ E.idx = IterTile /\ E.dirs = TilesDir(arr[it.h].lay)
          /\ E.size = TileSize(arr[it.h].lay)
          /\ E.data = TileData(arr[it.h].data, IterTile, arr[it.h].lay)
          /\ IF E.wrote THEN IterVisitWrite(E.o, E.x) ELSE IterVisit
TIterE == Is("itere") /\ IterEnd /\ E.data = arr[it.h].data
TEnd == Is("end") /\ ~it.on /\ UNCHANGED lvars

Next == TNew \/ TTile \/ TUntile \/ TReject \/ TBind \/ TRead \/ TWrite \/ TIterB
        \/ TVisit \/ TIterE \/ TEnd
Spec == Init /\ [][Next]_tvars
Track == Reach(cs, i - 1)
=============================================================================
