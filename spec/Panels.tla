------------------------------- MODULE Panels -------------------------------
(* Blocked multiplication: the result is divided into blocks of bx x by, each  *)
(* owned by one worker; along k it is accumulated in panels of bk.  What lies  *)
(* beyond the matrix is either cut off ("clip") or filled with zeros up to a   *)
(* multiple of the block ("pad"), and never copied out.  Between repetitions   *)
(* the accumulators start from zero again, whatever was in them.               *)
EXTENDS Product
VARIABLE pn
PMin(a, b) == IF a <= b THEN a ELSE b
PBlocks(n, bx, by) == (0..CeilDiv(n, bx) - 1) \X (0..CeilDiv(n, by) - 1)
PStart(n, bx, by, bk, mode, reps) ==
  pn' = [n |-> n, bx |-> bx, by |-> by, bk |-> bk, mode |-> mode, reps |-> reps, out |-> [q \in 1..n * n |-> 0],
         wr |-> [q \in 1..n * n |-> 0],
         \* per block: panels done (-1: not begun), and the accumulator
         k |-> [p \in PBlocks(n, bx, by) |-> -1],
         acc |-> [p \in PBlocks(n, bx, by) |-> [q \in 1..bx * by |-> 99]]]
Panels(s) == CeilDiv(s.n, s.bk)
\* padded operand: row r, column c
PadA(s, a, r, c) == IF r < s.n /\ c < s.n THEN a[r * s.n + c + 1] ELSE 0
PadB(s, b, bt, r, c) == IF r < s.n /\ c < s.n THEN BAt(b, s.n, bt, r, c) ELSE 0
RECURSIVE PanelSum(_, _, _, _, _, _, _, _)
PanelSum(s, a, b, bt, i, j, from, to) ==
  IF to <= from THEN 0
  ELSE PanelSum(s, a, b, bt, i, j, from, to - 1) + PadA(s, a, i, to - 1) * PadB(s, b, bt, to - 1, j)
\* a worker takes up a block: the accumulator is cleared
PBegin(p) == /\ pn.k[p] = -1
             /\ pn' = [pn EXCEPT !.k[p] = 0, !.acc[p] = [q \in 1..pn.bx * pn.by |-> 0]]
PPanel(p, a, b, bt) ==
  /\ pn.k[p] >= 0 /\ pn.k[p] < Panels(pn)
  /\ LET from == pn.k[p] * pn.bk
         to == IF pn.mode = "pad" THEN from + pn.bk ELSE PMin(pn.n, from + pn.bk) IN
     pn' = [pn EXCEPT !.k[p] = @ + 1,
              !.acc[p] = [q \in 1..pn.bx * pn.by |->
                LET i == p[1] * pn.bx + ((q - 1) \div pn.by) j == p[2] * pn.by + ((q - 1) % pn.by) IN
                IF pn.mode = "clip" /\ (i >= pn.n \/ j >= pn.n) THEN @[q]
                ELSE @[q] + PanelSum(pn, a, b, bt, i, j, from, to)]]
PStore(p) ==
  /\ pn.k[p] = Panels(pn)
  /\ LET mine(q) == ((q - 1) \div pn.n) \div pn.bx = p[1] /\ ((q - 1) % pn.n) \div pn.by = p[2]
         at(q) == (((q - 1) \div pn.n) % pn.bx) * pn.by + (((q - 1) % pn.n) % pn.by) + 1 IN
     pn' = [pn EXCEPT !.k[p] = @ + 1,
              !.out = [q \in 1..pn.n * pn.n |-> IF mine(q) THEN pn.acc[p][at(q)] ELSE @[q]],
              !.wr = [q \in 1..pn.n * pn.n |-> IF mine(q) THEN @[q] + 1 ELSE @[q]]]
POver == \A p \in DOMAIN pn.k : pn.k[p] = Panels(pn) + 1
PAgain == /\ POver /\ pn.reps > 1
          /\ pn' = [pn EXCEPT !.reps = @ - 1, !.k = [p \in DOMAIN pn.k |-> -1], !.wr = [q \in DOMAIN pn.wr |-> 0]]
=============================================================================
