------------------------------ MODULE Product -------------------------------
(* Products of square integer matrices, as sequences in row-major order.       *)
(* Operands are described by formulas: [kind, c].                              *)
EXTENDS Shapes, TLC, SequencesExt
VARIABLE pr      \* [on, n, bt, a, b]: the operands in use, and p, see Residues

Pol(c, i, j) == (((i * c[1] + j * c[2] + i * j * c[3] + i * i * c[4] + j * j * c[5] + c[6]) % 10007) % 19) - 9

Ent(m, i, j) ==
  CASE m.kind = "poly" -> Pol(m.c, i, j)
    [] m.kind = "res" -> Pol(m.c, i % m.c[7], j % m.c[7])
    [] m.kind = "unit" -> IF i = m.c[1] /\ j = m.c[2] THEN 3 ELSE 0
    [] m.kind = "ident" -> IF i = j THEN 1 ELSE 0
    [] m.kind = "data" -> m.c[i + 1][j + 1]
    [] OTHER -> 0
Mat(m, n) == TLCEval([k \in 1..n * n |-> Ent(m, (k - 1) \div n, (k - 1) % n)])
\* the right operand in use: element (k, j) of B, which may be stored transposed
BAt(b, n, bt, k, j) == IF bt THEN b[j * n + k + 1] ELSE b[k * n + j + 1]
Idx(n) == TLCEval([k \in 1..n |-> k])
\* sum over k < up of a(i,k) * b(k,j)
Dot(a, b, n, bt, i, j, up) ==
  LET ra == TLCEval(i * n) rb == TLCEval(IF bt THEN j * n ELSE j + 1 - n) IN
  IF bt THEN FoldLeft(LAMBDA acc, k : acc + a[ra + k] * b[rb + k], 0, Idx(up))
  ELSE FoldLeft(LAMBDA acc, k : acc + a[ra + k] * b[k * n + rb], 0, Idx(up))
ProductOf(a, b, n, bt) == [k \in 1..n * n |-> Dot(a, b, n, bt, (k - 1) \div n, (k - 1) % n, n)]
Block(a, b, n, bt, x, y, e) == [k \in 1..e * e |-> Dot(a, b, n, bt, x + ((k - 1) \div e), y + ((k - 1) % e), n)]

(* Large products: both sides are multiplied with probe vectors modulo a prime. *)
P == 32749
Probe(s, j) == (j * j * (s + 11) + j * (7 * s + 3) + 5 * s + 1) % P
TimesV(m, n, v) ==
  LET idx == Idx(n) IN
  TLCEval([i \in 1..n |-> LET base == TLCEval((i - 1) * n) IN
            FoldLeft(LAMBDA acc, k : (acc + (m[base + k] % P) * v[k]) % P, 0, idx)])
TransTimesV(m, n, v) ==
  LET idx == Idx(n) IN
  TLCEval([i \in 1..n |-> FoldLeft(LAMBDA acc, k : (acc + (m[(k - 1) * n + i] % P) * v[k]) % P, 0, idx)])
BV(b, n, bt, v) == IF bt THEN TransTimesV(b, n, v) ELSE TimesV(b, n, v)
Agrees(c, a, b, n, bt, s) ==
  LET v == TLCEval([j \in 1..n |-> Probe(s, j)])
  IN  TimesV(c, n, v) = TimesV(a, n, BV(b, n, bt, v))
Small(c) == \A k \in 1..Len(c) : c[k] > -2000000000 /\ c[k] < 2000000000
\* above this size by probes
FullN == 40
IsProduct(c, a, b, n, bt) ==
  /\ Len(c) = n * n /\ Small(c)
  /\ IF n <= FullN THEN c = ProductOf(a, b, n, bt)
     ELSE Agrees(c, a, b, n, bt, 1) /\ Agrees(c, a, b, n, bt, 2)

(* Residues: operands whose elements depend on the indices modulo p only ("res").*)
(* So does then the product; it is known from one p x p matrix, and a large one  *)
(* is recorded as the smallest and largest element of every residue class.       *)
Members(n, p, r) == IF r < n THEN (n - 1 - r) \div p + 1 ELSE 0
ClassDot(a, b, n, p, bt, r, s) ==
  FoldLeft(LAMBDA acc, t : acc + Members(n, p, t - 1) * a[r * p + t] * BAt(b, p, bt, t - 1, s), 0, Idx(p))
\* out: <<lowest, highest>> per class, <<>> if it has no members
IsProductByClass(size, out, a, b, n, p, bt) ==
  /\ size = n * n /\ Len(out) = p * p
  /\ \A q \in 1..p * p :
       LET r == (q - 1) \div p s == (q - 1) % p IN
       IF r < n /\ s < n THEN LET d == ClassDot(a, b, n, p, bt, r, s) IN out[q] = <<d, d>>
       ELSE out[q] = <<>>

ProdInit == pr = [on |-> FALSE]
\* a caller fixes the operands; B counts as transposed if bt
Operands(n, bt, a, b) == ~pr.on /\ pr' = [on |-> TRUE, n |-> n, bt |-> bt, a |-> a, b |-> b, p |-> 0]
\* operands given by formulas
OperandsBy(n, bt, fa, fb) ==
  IF fa.kind = "res" /\ fb.kind = "res" /\ fa.c[7] = fb.c[7]
  THEN ~pr.on /\ pr' = [on |-> TRUE, n |-> n, bt |-> bt, a |-> Mat(fa, fa.c[7]), b |-> Mat(fb, fb.c[7]), p |-> fa.c[7]]
  ELSE Operands(n, bt, Mat(fa, n), Mat(fb, n))
\* any number of multiplications; the operands stay as they are
Result(c) == pr.on /\ pr.p = 0 /\ IsProduct(c, pr.a, pr.b, pr.n, pr.bt) = TRUE /\ UNCHANGED pr
ResultByClass(size, out) == pr.on /\ pr.p > 0 /\ IsProductByClass(size, out, pr.a, pr.b, pr.n, pr.p, pr.bt) = TRUE /\ UNCHANGED pr
BlockResult(c, x, y, e) == pr.on /\ (c = Block(pr.a, pr.b, pr.n, pr.bt, x, y, e)) = TRUE /\ UNCHANGED pr
StillOperands(a, b) == pr.on /\ a = pr.a /\ b = pr.b /\ UNCHANGED pr
Done == pr.on /\ pr' = [on |-> FALSE]
=============================================================================
