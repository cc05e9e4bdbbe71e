--------------------------- MODULE TraceSchedule ----------------------------
(* VF_WHAT = cover: what C11 asks of a schedule; balance: C12.  For schedules  *)
(* that are small enough a behaviour of the specification is searched that     *)
(* constructs exactly this one; larger ones are judged by how they end.        *)
EXTENDS Schedule, TraceKit
VARIABLES cs, i, mode
tvars == <<sd, cs, i, mode>>
What == IOEnv.VF_WHAT
E == Cases[cs].ev[i]
At(name) == i <= Len(Cases[cs].ev) /\ E.e = name
Is(name) == At(name) /\ i' = i + 1 /\ cs' = cs
None == [n |-> 0, min |-> 0, ad |-> 0, rn |-> 0, rd |-> 1, work |-> <<>>]
Init == cs \in 1..NumCases /\ i = 1 /\ sd = None /\ mode = "idle"
TObj == Is("obj") /\ sd' = [n |-> E.n, min |-> E.min, ad |-> E.ad, rn |-> E.rn, rd |-> E.rd, work |-> <<>>] /\ mode' = "idle"
SetOf(l) == {l[k] : k \in 1..Len(l)}
Sets(work) == [k \in 1..Len(work) |-> SetOf(work[k])]
Total(work) == Len(Flatten1(work))
TCover == /\ What = "cover" /\ Is("sched") /\ Len(E.work) = E.nodes
          /\ ExactCover(TLCEval(Flatten1(E.work)), sd.n) = TRUE /\ UNCHANGED <<sd, mode>>
\* balance: first how it ends
EndOk == LET s == TLCEval([sd EXCEPT !.work = Sets(E.work)]) IN
         Len(E.work) = E.nodes /\ Ends(s) /\ \A k \in 1..Len(E.work) : \A q \in 1..Len(E.work[k]) : FromSplits(E.work[k][q][3], sd.n, sd.min)
TJudge == What = "balance" /\ At("sched") /\ Total(E.work) > E.search /\ Is("sched") /\ EndOk = TRUE /\ UNCHANGED <<sd, mode>>
\* then whether it can be constructed: only packages that are split in the end
TBegin == /\ What = "balance" /\ mode = "idle" /\ At("sched") /\ Total(E.work) <= E.search /\ EndOk = TRUE
          /\ sd' = SInit(sd.n, E.nodes, sd.min, sd.ad, sd.rn, sd.rd) /\ mode' = "search" /\ UNCHANGED <<cs, i>>
Target == Sets(E.work)
Everywhere == UNION SetOf(Target)
In(p, q) == q[1] <= p[1] /\ q[2] <= p[2] /\ p[1] + p[3] <= q[1] + q[3] /\ p[2] + p[3] <= q[2] + q[3]
\* a quarter that is final has to be where it ends up
Plausible(h, a) == \A q \in h : q \in Everywhere => q \in Target[a]
TMove == /\ mode = "search"
         /\ \E a \in 1..Len(sd.work) : \E b \in 1..Len(sd.work) : \E p \in sd.work[a] :
              /\ p \notin Everywhere
              /\ \E h \in {x \in SUBSET QuartersOf(p) : Cardinality(x) = 2 /\ Plausible(x, a) /\ Plausible(QuartersOf(p) \ x, b)} : Move(a, b, p, h)
         /\ UNCHANGED <<cs, i, mode>>
TDone == mode = "search" /\ sd.work = Target /\ Ends(sd) /\ Is("sched") /\ sd' = [sd EXCEPT !.work = <<>>] /\ mode' = "idle"
TFulf == Is("fulf") /\ mode = "idle" /\ E.same /\ (What = "balance" => (E.ok = Balanced(E.loads, sd.ad, sd.rn, sd.rd))) /\ UNCHANGED <<sd, mode>>
TEnd == Is("end") /\ mode = "idle" /\ UNCHANGED <<sd, mode>>
Next == TObj \/ TCover \/ TJudge \/ TBegin \/ TMove \/ TDone \/ TFulf \/ TEnd
Spec == Init /\ [][Next]_tvars
Track == Reach(cs, i - 1)
=============================================================================
