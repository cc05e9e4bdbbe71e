------------------------------ MODULE MCMemory ------------------------------
(* A blocked, parallel operation on storage.  The caller owns operands and     *)
(* result of N elements; the operation starts a task for every B elements, and *)
(* a task obtains a buffer of B elements padded to whole blocks, copies its    *)
(* (possibly shorter) part of the operand, works on the padded buffer, writes  *)
(* its part of the result and releases the buffer.  The operation returns when *)
(* all tasks have finished; then the caller releases operand and result.       *)
(* Checked: no access in any interleaving and for no N, B is stray, and at     *)
(* the end nothing of the operation is left.                                   *)
EXTENDS Memory, FiniteSets, TLC
CONSTANTS MaxN, MaxB
VARIABLES n, b, pc, main, stray
vars == <<size, live, n, b, pc, main, stray>>
Tasks(nn, bb) == IF nn = 0 THEN 0 ELSE (nn - 1) \div bb + 1
Min(x, y) == IF x < y THEN x ELSE y
From(t) == (t - 1) * b
Upto(t) == Min(t * b, n)
Use(c, lo, hi) == /\ stray' = (stray \/ ~Inside(c, lo, hi)) /\ UNCHANGED mvars
OPERAND == 1
RESULT == 2
Buf(t) == 2 + t
Init == /\ n \in 0..MaxN /\ b \in 1..MaxB
        /\ size = <<n, n>> /\ live = {OPERAND, RESULT}
        /\ pc = [t \in 1..Tasks(n, b) |-> "ready"] /\ main = "wait" /\ stray = FALSE
Go(t, from, to) == pc[t] = from /\ pc' = [pc EXCEPT ![t] = to] /\ UNCHANGED <<n, b, main>>
TObtain(t) == Go(t, "ready", "read") /\ Obtain(Buf(t), b) /\ UNCHANGED stray
TRead(t) == Go(t, "read", "fill") /\ Use(OPERAND, From(t), Upto(t))
TFill(t) == Go(t, "fill", "pad") /\ Use(Buf(t), 0, Upto(t) - From(t))
TPad(t) == Go(t, "pad", "work") /\ Use(Buf(t), Upto(t) - From(t), b)
TWork(t) == Go(t, "work", "write") /\ Use(Buf(t), 0, b)
TWrite(t) == Go(t, "write", "drop") /\ Use(RESULT, From(t), Upto(t))
TDrop(t) == Go(t, "drop", "done") /\ Release(Buf(t)) /\ UNCHANGED stray
Join == main = "wait" /\ (\A t \in DOMAIN pc : pc[t] = "done") /\ main' = "joined" /\ UNCHANGED <<size, live, n, b, pc, stray>>
Give == main = "joined" /\ main' = "result" /\ Release(OPERAND) /\ UNCHANGED <<n, b, pc, stray>>
Done == main = "result" /\ main' = "over" /\ Release(RESULT) /\ UNCHANGED <<n, b, pc, stray>>
Next == Join \/ Give \/ Done
        \/ (\E t \in DOMAIN pc : TObtain(t) \/ TRead(t) \/ TFill(t) \/ TPad(t) \/ TWork(t) \/ TWrite(t) \/ TDrop(t))
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
NoStray == ~stray
Clean == main = "over" => live = {}
Ends == <>(main = "over")
=============================================================================
