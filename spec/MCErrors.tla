------------------------------ MODULE MCErrors ------------------------------
EXTENDS Errors
CONSTANT MaxObj
Msgs == {<<>>, <<65>>}
VARIABLE org   \* where each object's text comes from: class and message
Init == ErrInit /\ org = <<>>
Room == Len(obj) < MaxObj
Next ==
  \/ Room /\ \E c \in Classes, m \in Msgs : Create(c, m) /\ org' = Append(org, <<c, m>>)
  \/ Room /\ \E k \in 1..Len(obj) : Copy(k) /\ org' = Append(org, org[k])
  \/ \E k, j \in 1..Len(obj) : Assign(k, j) /\ org' = [org EXCEPT ![k] = org[j]]
  \/ \E k \in 1..Len(obj) : Destroy(k) /\ UNCHANGED org
  \/ Len(ptr) < 2 /\ \E k \in 1..Len(obj) : Hold(k) /\ UNCHANGED org
Spec == Init /\ [][Next]_<<obj, ptr, org>>
\* the text says what was asked for, for every object that can be read
Faithful == \A k \in 1..Len(obj) : Live(k) => ReadRes(k) = Prefix(org[k][1]) \o org[k][2] /\ obj[k].cls = org[k][1]
\* a good pointer shows the text that was there when it was taken
HeldOk == \A q \in 1..Len(ptr) : ptr[q].good => Live(ptr[q].k)
Stable == [][\A q \in 1..Len(ptr) : ptr'[q].good => HeldRes(q) = obj'[ptr'[q].k].text]_<<obj, ptr, org>>
=============================================================================
