------------------------------ MODULE TraceCli ------------------------------
EXTENDS Cli, TraceKit
VARIABLES cs, i
tvars == <<req, ran, res, out, status, cs, i>>
E == Cases[cs].ev[i]
Is(name) == i <= Len(Cases[cs].ev) /\ E.e = name /\ i' = i + 1 /\ cs' = cs
ToSet(s) == {s[q] : q \in DOMAIN s}
\* options that were not given have their default values
Opt(c) == [f \in DOMAIN Defaults |-> IF f \in DOMAIN c THEN c[f] ELSE Defaults[f]]
Init == cs \in 1..NumCases /\ i = 1 /\ CliInit(Opt(Cases[cs].cfg.opt))
TRun == Is("ran") /\ Run(E.what)
TResult == Is("result") /\ Result([len |-> E.len, wrong |-> ToSet(E.wrong), there |-> TRUE])
\* the program built without a tampered result: what it got is right
TAssume == Is("assume") /\ Result([len |-> req.n * req.n, wrong |-> {}, there |-> TRUE])
TRows == Is("mat") /\ Print([kind |-> E.name, rows |-> E.rows])
TOpts == Is("opts") /\ Print([kind |-> "opts", names |-> ToSet(E.names)])
TTime == (Is("total") \/ Is("avg") \/ Is("perf") \/ Is("invalid") \/ Is("verdict"))
         /\ Print([f \in (DOMAIN E \ {"e"}) \cup {"kind"} |-> IF f = "kind" THEN E.e ELSE E[f]])
TExit == Is("exit") /\ Exit(E.status)
Next == TRun \/ TResult \/ TAssume \/ TRows \/ TOpts \/ TTime \/ TExit
Spec == Init /\ [][Next]_tvars
Track == Reach(cs, i - 1)
=============================================================================
