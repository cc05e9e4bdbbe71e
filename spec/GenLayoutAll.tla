---------------------------- MODULE GenLayoutAll ----------------------------
(* All layouts within bounds, each with its tiles and inner coordinates.       *)
EXTENDS Layout, GenKit
MaxDim == EnvNat("VF_MAXDIM", 3)
MaxExt == EnvNat("VF_MAXEXT", 4)
MaxSize == EnvNat("VF_SIZE", 12)
InOrder(e) == [k \in 1..Prod(e) |-> Unflat(k - 1, e)]
VARIABLES ext, tile, done
vars == <<lvars, ext, tile, done>>
Init == LInit /\ ext = <<>> /\ tile = <<>> /\ done = FALSE
Divs(n) == {t \in 1..n : n % t = 0}
Extend == /\ ~done /\ Len(ext) < MaxDim
          /\ \E n \in 1..MaxExt : \E t \in Divs(n) :
               Prod(ext) * n <= MaxSize /\ ext' = Append(ext, n) /\ tile' = Append(tile, t)
          /\ UNCHANGED <<lvars, done>>
Finish == /\ ~done /\ ext # <<>> /\ done' = TRUE /\ UNCHANGED <<lvars, ext, tile>>
          /\ LET l == [tile |-> tile, ext |-> ext] IN
             Emit([tile |-> tile, ext |-> ext, tiles |-> InOrder(TilesDir(l)), inner |-> InOrder(tile)])
Spec == Init /\ [][Extend \/ Finish]_vars
=============================================================================
