------------------------------ MODULE GenAlloc ------------------------------
(* Lives of a few owners, interleaved.                                         *)
EXTENDS Alloc, GenKit
VARIABLES ops, st, done, pick   \* pick: an allocation being made up
vars == <<own, heap, freed, ops, st, done, pick>>
Objs == 1..3
MaxOps == EnvNat("VF_OPS", 14)
Types == {"char", "short", "float", "double", "b3", "b24", "b40", "v32"}
Init == AInit /\ ops = <<>> /\ st = [o \in Objs |-> "none"] /\ done = FALSE /\ pick = <<>>
Add(x) == ops' = Append(ops, x) /\ pick' = <<>> /\ UNCHANGED <<own, heap, freed, done>>
Put(o, s) == st' = [st EXCEPT ![o] = s]
Live(o) == st[o] # "none"
AllocOp(o, t, n, a, sh, how, oom, huge) ==
  Add([op |-> "alloc", o |-> o, t |-> t, n |-> n, a |-> a, shift |-> sh, in |-> how, oom |-> oom, huge |-> huge])
Step ==
  \E o \in Objs :
    \/ st[o] = "none" /\ Add([op |-> "new", o |-> o]) /\ Put(o, "empty")
    \/ /\ st[o] = "empty"
       /\ \E t \in Types : \E n \in {1, 2, 3, 5, 8, 17, 64, 100, 1000} : pick' = <<o, t, n>>
       /\ UNCHANGED <<own, heap, freed, ops, st, done>>
    \/ /\ st[o] = "empty" /\ Len(ops) % 3 = 0
       /\ \E t \in Types : \E n \in {1, 2, 9} : \E al \in {0, 4, 6, 9} :
            \/ AllocOp(o, t, n, 2^al, 1, "plain", TRUE, FALSE) /\ Put(o, "failed")
            \/ t # "char" /\ AllocOp(o, t, n, 2^al, 1, "plain", FALSE, TRUE) /\ Put(o, "failed")
    \/ st[o] = "holding" /\ Add([op |-> "use", o |-> o]) /\ Put(o, "used")
    \/ st[o] = "used" /\ Add([op |-> "check", o |-> o]) /\ UNCHANGED st
    \/ /\ st[o] \in {"holding", "used"}
       /\ \E t \in {"char", "double", "b24"} : \E n \in {1, 4, 200} : \E al \in {0, 5, 12} :
            AllocOp(o, t, n, 2^al, 3, "catch", FALSE, FALSE) /\ UNCHANGED st
    \/ Live(o) /\ Len(ops) > 4 /\ Add([op |-> "destroy", o |-> o]) /\ Put(o, "none")
Picked ==
  \E al \in 0..13 : \E sh \in {0, 1, 2, 5, 7, 12, 13, 30, 63, 64} : \E how \in {"plain", "catch"} :
    AllocOp(pick[1], pick[2], pick[3], 2^al, sh, how, FALSE, FALSE) /\ Put(pick[1], "holding")
\* a refusal that ends the program comes last
Last == \E o \in Objs : st[o] \in {"holding", "used"} /\ AllocOp(o, "double", 3, 32, 0, "plain", FALSE, FALSE) /\ UNCHANGED st
Fin == ~done /\ pick = <<>> /\ Len(ops) >= MaxOps /\ done' = TRUE /\ UNCHANGED <<own, heap, freed, ops, st, pick>> /\ Emit([ops |-> ops])
Next == (pick # <<>> /\ Picked) \/ (pick = <<>> /\ Len(ops) < MaxOps /\ Step) \/ (pick = <<>> /\ Len(ops) = MaxOps - 1 /\ Last) \/ Fin
Spec == Init /\ [][Next]_vars
=============================================================================
