---------------------------- MODULE GenMatrices -----------------------------
(* Sessions of builder and transposition calls.  The contents of matrices are  *)
(* not tracked here, only their shapes.                                        *)
EXTENDS Naturals, Sequences, GenKit
MaxOps == EnvNat("VF_OPS", 6)
MaxDim == EnvNat("VF_DIM", 6)
VARIABLES sh, ops, done
vars == <<sh, ops, done>>
Init == sh = <<>> /\ ops = <<>> /\ done = FALSE
Op(o) == ops' = Append(ops, o)
Load == \E r \in 0..MaxDim, c \in 0..MaxDim : Op([op |-> "load", rows |-> r, cols |-> c, seed |-> Len(ops) + 1]) /\ sh' = Append(sh, <<r, c>>)
Id == \E n \in 0..MaxDim : Op([op |-> "ident", n |-> n]) /\ sh' = Append(sh, <<n, n>>)
En == \E n \in 0..MaxDim : Op([op |-> "enum", n |-> n]) /\ sh' = Append(sh, <<n, n>>)
Rd == \E n \in 1..MaxDim : Op([op |-> "rand", n |-> n]) /\ UNCHANGED sh
Tr == \E k \in 1..Len(sh) : /\ Op([op |-> "tr", k |-> k, rows |-> sh[k][1], cols |-> sh[k][2]])
                            /\ sh' = Append(sh, <<sh[k][2], sh[k][1]>>)
TrSq == \E k \in 1..Len(sh) : /\ sh[k][1] = sh[k][2] /\ Op([op |-> "trsq", k |-> k, rows |-> sh[k][1], cols |-> sh[k][2]])
                              /\ sh' = Append(sh, sh[k])
Fin == Len(ops) = MaxOps /\ done' = TRUE /\ Emit([ops |-> ops]) /\ UNCHANGED <<sh, ops>>
Next == ~done /\ IF Len(ops) < MaxOps THEN (Load \/ Id \/ En \/ Rd \/ Tr \/ TrSq) /\ done' = done ELSE Fin
Spec == Init /\ [][Next]_vars
=============================================================================
