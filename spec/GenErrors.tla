----------------------------- MODULE GenErrors ------------------------------
(* Random lives of exceptions.  Messages are named by class, length and seed;  *)
(* the text is made from them by the driver.                                   *)
EXTENDS Errors, GenKit
Depth == EnvNat("VF_OPS", 14)
VARIABLES hist, done
vars == <<obj, ptr, hist, done>>
Init == ErrInit /\ hist = <<>> /\ done = FALSE
Op(r) == hist' = Append(hist, r) /\ UNCHANGED done
Ms == {[len |-> l, seed |-> s] : l \in {0, 1, 7, 14, 15, 16, 23, 40, 200, 3000}, s \in 1..4}
Live1 == {k \in 1..Len(obj) : obj[k].live}
Good == {q \in 1..Len(ptr) : ptr[q].good}
GC == \E c \in Classes, m \in Ms : Create(c, <<m>>) /\ Op([op |-> "create", cls |-> c, m |-> m])
GCopy == \E k \in Live1, w \in {"copy", "throw", "later", "base", "nested", "poly"} : Copy(k) /\ Op([op |-> "copy", k |-> k, how |-> w])
GAssign == \E k, j \in Live1 : Assign(k, j) /\ Op([op |-> "assign", k |-> k, j |-> j])
GDestroy == \E k \in Live1 : Destroy(k) /\ Op([op |-> "destroy", k |-> k])
GHold == \E k \in Live1 : Hold(k) /\ Op([op |-> "hold", k |-> k])
GClob == Clobber /\ Op([op |-> "clobber", n |-> Len(hist)])
GRead == \E k \in Live1, b \in BOOLEAN : Read(k) /\ Op([op |-> "read", k |-> k, base |-> b])
GHeld == \E q \in Good : ReadHeld(q) /\ Op([op |-> "held", q |-> q])
Fin == Len(hist) = Depth /\ ~done /\ done' = TRUE /\ Emit([ops |-> hist]) /\ UNCHANGED <<obj, ptr, hist>>
\* one kind of step is chosen first, so that long lists of alternatives do not dominate
Next == IF Len(hist) = Depth THEN Fin
        ELSE IF Live1 = {} THEN GC
        ELSE \E w \in {1, 2, 3, 4, 5, 6, 7, 8} :
          CASE w = 1 -> GC [] w = 2 -> GCopy [] w = 3 -> GAssign [] w = 4 -> GDestroy
            [] w = 5 -> GHold [] w = 6 -> GClob [] w = 7 -> GRead [] w = 8 -> GHeld
Spec == Init /\ [][Next]_vars
=============================================================================
