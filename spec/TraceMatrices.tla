--------------------------- MODULE TraceMatrices ----------------------------
EXTENDS Matrices, TraceKit
VARIABLES cs, i
tvars == <<mats, rnd, cs, i>>
E == Cases[cs].ev[i]
Is(name) == i <= Len(Cases[cs].ev) /\ E.e = name /\ i' = i + 1 /\ cs' = cs
\* values seen by an earlier process
Ref == IF "ref" \in DOMAIN Cases[cs].cfg THEN [k \in 1..Len(Cases[cs].cfg.ref) |-> <<Cases[cs].cfg.ref[k].n, Cases[cs].cfg.ref[k].v>>] ELSE <<>>
Init == cs \in 1..NumCases /\ i = 1 /\ mats = <<>> /\ rnd = Ref
TLoad == Is("load") /\ Load(E.out)
TId == Is("ident") /\ Ident(E.n) /\ E.out = Identity(E.n)
TEn == Is("enum") /\ Enum(E.n) /\ E.out = Enumerating(E.n)
TRand == Is("rand") /\ Rand(E.n, E.v)
TTr == /\ Is("tr") /\ Transpose(E.k, E.rows, E.cols)
       /\ E.out = Transposed(mats[E.k], E.rows, E.cols)
\* of a matrix too large to be written down: its size, how many elements are
\* not zero, and some <<i, j, element>>
BigAt(w, p, q, cols) == CASE w = "ident" -> IF p = q THEN 1 ELSE 0
                          [] w = "enum" -> p * cols + q
                          [] w = "tr" -> (7 * q + 11 * p) % 1009
TBig == /\ Is("big") /\ UNCHANGED mvars
        /\ E.size = E.rows * E.cols
        /\ (E.what = "ident" => E.nz = E.rows) /\ (E.what = "enum" => E.nz = E.rows * E.cols - 1)
        /\ \A k \in 1..Len(E.at) : E.at[k][3] = BigAt(E.what, E.at[k][1], E.at[k][2], E.cols)
\* all matrices of the session, read again
TAll == Is("all") /\ E.m = mats /\ UNCHANGED mvars
Num(v) == IF v < 0 THEN "-" \o ToString(-v) ELSE ToString(v)
Quarters == <<"", ".25", ".5", ".75">>
Text(ty, v) == IF ty = "string" THEN "value:" \o Num(v)
               ELSE IF ty = "quarter" THEN Num(v \div 4) \o Quarters[(v % 4) + 1] ELSE Num(v)
TPrint ==
  /\ Is("print") /\ UNCHANGED mvars
  /\ E.other = ""
  /\ LET x == Printed([k \in 1..Len(E.m) |-> Text(E.ty, E.m[k])], E.rows, E.cols, E.tr) IN
     IF x[2] THEN ~E.exc /\ E.text = x[1]
     ELSE E.exc /\ Len(E.text) <= Len(x[1]) /\ SubSeq(x[1], 1, Len(E.text)) = E.text
TEnd == Is("end") /\ UNCHANGED mvars
Next == TLoad \/ TId \/ TEn \/ TRand \/ TTr \/ TAll \/ TBig \/ TPrint \/ TEnd
Spec == Init /\ [][Next]_tvars
Track == Reach(cs, i - 1)
=============================================================================
