------------------------------- MODULE Reuse --------------------------------
(* Multiplication objects over time.  An object is made for a pair of          *)
(* operands, multiplies any number of times, and is dropped.  It repeats the   *)
(* multiplication a fixed number of times per call and keeps its accumulator   *)
(* between calls; each repetition starts by clearing it.  The operands belong  *)
(* to the caller and never change.                                             *)
EXTENDS Product
VARIABLE ob        \* slot -> [mats, reps] or NoObj
NoObj == [mats |-> 0, reps |-> 0]
ReuseInit == ob = [k \in 0..3 |-> NoObj]
\* a slot that is made anew loses its previous object
Make(k, m, reps) == m > 0 /\ reps > 0 /\ ob' = [ob EXCEPT ![k] = [mats |-> m, reps |-> reps]]
Drop(k) == ob[k] # NoObj /\ ob' = [ob EXCEPT ![k] = NoObj]
\* the answer of object k, with mats the caller's operands [n, bt, a, b]
Answers(k, mats, c) == /\ ob[k] # NoObj
                       /\ IsProduct(c, mats[ob[k].mats].a, mats[ob[k].mats].b, mats[ob[k].mats].n, mats[ob[k].mats].bt) = TRUE
                       /\ UNCHANGED ob
=============================================================================
