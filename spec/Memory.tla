------------------------------- MODULE Memory -------------------------------
(* Storage in use by the operations: blocks with a size, obtained and          *)
(* released; every access lies inside a block that has been obtained and not   *)
(* yet released.                                                               *)
EXTENDS Integers
VARIABLES size, live
mvars == <<size, live>>
MemInit == size = <<>> /\ live = {}
Known == DOMAIN size
Obtain(b, n) == /\ b \notin Known /\ n >= 0
                /\ size' = [c \in Known \cup {b} |-> IF c = b THEN n ELSE size[c]]
                /\ live' = live \cup {b}
Inside(b, lo, hi) == b \in live /\ 0 <= lo /\ lo <= hi /\ hi <= size[b]
\* bytes lo up to, not including, hi of block b
Touch(b, lo, hi) == Inside(b, lo, hi) /\ UNCHANGED mvars
Release(b) == b \in live /\ live' = live \ {b} /\ UNCHANGED size
=============================================================================
