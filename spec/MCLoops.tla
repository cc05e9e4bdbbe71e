------------------------------ MODULE MCLoops -------------------------------
(* The odometer visits exactly the lattice, in lexicographic order.            *)
EXTENDS Loops, FiniteSets, TLC
CONSTANTS MaxDim, Los, His, Sts
VARIABLE seen
Bounds == UNION {[1..d -> Los \X His \X Sts] : d \in 1..MaxDim}
Init == LoopInit /\ seen = <<>>
Next ==
  \/ \E b \in Bounds : Begin([d \in 1..Len(b) |-> b[d][1]], [d \in 1..Len(b) |-> b[d][2]], [d \in 1..Len(b) |-> b[d][3]])
       /\ seen = <<>> /\ UNCHANGED seen
  \/ Call /\ seen' = Append(seen, nest.cur)
Spec == Init /\ [][Next]_<<nest, seen>> /\ WF_<<nest, seen>>(Next)
InOrder == Len(seen) > 1 => LexLess(seen[Len(seen) - 1], seen[Len(seen)])
Inside == nest.on => Range(seen) \subseteq LatticeSet(nest.lo, nest.hi, nest.st)
Complete == nest.on /\ nest.over => Range(seen) = LatticeSet(nest.lo, nest.hi, nest.st)
                                    /\ Len(seen) = LatticeSize(nest.lo, nest.hi, nest.st)
Numbering == nest.on => \A k \in 1..Len(seen) : seen[k] = LatticePoint(k - 1, nest.lo, nest.hi, nest.st)
Terminates == nest.on ~> (nest.on /\ nest.over)
\* the residues agree with the number itself
ASSUME \A e \in UNION {[1..d -> 1..4] : d \in 1..3} : \A c \in Coords(e) :
   FlatRes(c, e) = [j \in 1..Len(Primes) |-> Flat(c, e) % Primes[j]]
=============================================================================
