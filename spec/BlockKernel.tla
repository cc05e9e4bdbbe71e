----------------------------- MODULE BlockKernel ----------------------------
(* The block kernels of the task algorithms: the block at (x, y) with edge e   *)
(* of the product is accumulated chunk by chunk along k from local copies of   *)
(* the rows of A and of the (transposed) B.                                    *)
EXTENDS Product
VARIABLE kn      \* the kernel in progress
\* blocks a kernel may be asked for: inside the matrix; the register-blocked
\* kernel works on multiples of 4
InMatrix(n, x, y, e) == e >= 1 /\ x >= 0 /\ y >= 0 /\ x + e <= n /\ y + e <= n
Positions(n, e) == {<<x, y>> \in (0..n) \X (0..n) : InMatrix(n, x, y, e)}
\* which kernel computes a block of edge e when a multiplier is told to use
\* input chunks of length ch (0: none)
Selected(bt, ch, e) == IF ~bt THEN "plain" ELSE IF ch = 0 \/ e % 4 # 0 THEN "trans" ELSE "blocked"
KMin(a, b) == IF a <= b THEN a ELSE b
KStart(n, x, y, e, ch) ==
  /\ InMatrix(n, x, y, e) /\ ch >= 1
  /\ kn' = [n |-> n, x |-> x, y |-> y, e |-> e, ch |-> ch, kb |-> 0, ph |-> "copy", todo |-> (0..e - 1) \X (0..e - 1),
            as |-> [q \in 1..e * ch |-> -77], bs |-> [q \in 1..e * ch |-> -88], c |-> [q \in 1..e * e |-> 0]]
KEnd == KMin(kn.ch, kn.n - kn.kb)
\* copies the chunk; what lies behind a cut-off chunk stays from the chunk before
KCopy(a, b) ==
  /\ kn.ph = "copy" /\ kn.kb < kn.n
  /\ kn' = [kn EXCEPT !.ph = "acc", !.todo = (0..kn.e - 1) \X (0..kn.e - 1),
       !.as = [q \in 1..kn.e * kn.ch |-> LET i == (q - 1) \div kn.ch k == (q - 1) % kn.ch IN
                 IF k < KEnd THEN a[(kn.x + i) * kn.n + kn.kb + k + 1] ELSE @[q]],
       !.bs = [q \in 1..kn.e * kn.ch |-> LET j == (q - 1) \div kn.ch k == (q - 1) % kn.ch IN
                 IF k < KEnd THEN b[(kn.y + j) * kn.n + kn.kb + k + 1] ELSE @[q]]]
RECURSIVE KDot(_, _, _)
KDot(i, j, up) == IF up = 0 THEN 0 ELSE KDot(i, j, up - 1) + kn.as[i * kn.ch + up] * kn.bs[j * kn.ch + up]
KAcc == /\ kn.ph = "acc" /\ kn.todo # {}
        /\ \E p \in kn.todo :
             kn' = [kn EXCEPT !.todo = @ \ {p}, !.c[p[1] * kn.e + p[2] + 1] = @ + KDot(p[1], p[2], KEnd)]
KNext == /\ kn.ph = "acc" /\ kn.todo = {} /\ kn' = [kn EXCEPT !.ph = "copy", !.kb = @ + kn.ch]
KOver == kn.ph = "copy" /\ kn.kb >= kn.n
=============================================================================
