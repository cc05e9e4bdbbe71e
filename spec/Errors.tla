------------------------------- MODULE Errors -------------------------------
(* Library exceptions: the text of an exception is the name of its class, a    *)
(* colon and a space, and the message it was created with.  Copies, assigned   *)
(* and caught exceptions carry the text of their origin; nothing else in the   *)
(* program changes it; a pointer to the text stays good while the exception    *)
(* lives and is not assigned to.  Texts are sequences of character codes.      *)
EXTENDS Naturals, Sequences
VARIABLES obj, ptr
evars == <<obj, ptr>>
\* codes of "memory_layout_exception: " and "matrix_multiplication_exception: "
Memory == <<109, 101, 109, 111, 114, 121, 95, 108, 97, 121, 111, 117, 116, 95, 101, 120, 99, 101, 112, 116, 105, 111, 110, 58, 32>>
Matrix == <<109, 97, 116, 114, 105, 120, 95, 109, 117, 108, 116, 105, 112, 108, 105, 99, 97, 116, 105, 111, 110, 95, 101, 120, 99, 101, 112, 116, 105, 111, 110, 58, 32>>
Classes == {"memory", "matrix"}
Prefix(c) == IF c = "memory" THEN Memory ELSE Matrix
ErrInit == obj = <<>> /\ ptr = <<>>
Live(k) == k \in 1..Len(obj) /\ obj[k].live
Add(o) == obj' = Append(obj, o)
Create(c, msg) == Add([cls |-> c, text |-> Prefix(c) \o msg, live |-> TRUE]) /\ UNCHANGED ptr
\* copied, or thrown and caught (also later, through an exception_ptr)
Copy(k) == Live(k) /\ Add(obj[k]) /\ UNCHANGED ptr
Stale(k) == [q \in 1..Len(ptr) |-> IF ptr[q].k = k THEN [ptr[q] EXCEPT !.good = FALSE] ELSE ptr[q]]
Assign(k, j) == /\ Live(k) /\ Live(j) /\ obj[k].cls = obj[j].cls
                /\ obj' = [obj EXCEPT ![k].text = obj[j].text] /\ ptr' = Stale(k)
Destroy(k) == Live(k) /\ obj' = [obj EXCEPT ![k].live = FALSE] /\ ptr' = Stale(k)
Hold(k) == Live(k) /\ ptr' = Append(ptr, [k |-> k, good |-> TRUE]) /\ UNCHANGED obj
Clobber == UNCHANGED evars
ReadRes(k) == obj[k].text
Read(k) == Live(k) /\ UNCHANGED evars
HeldRes(q) == obj[ptr[q].k].text
ReadHeld(q) == q \in 1..Len(ptr) /\ ptr[q].good /\ UNCHANGED evars
=============================================================================
