------------------------------- MODULE MCCli --------------------------------
(* The program as it works: dispatch, operands, multiplication, report, and    *)
(* the comparison element by element; every step has to be one Cli allows, and *)
(* the guarantees are stated on their own.                                     *)
EXTENDS Cli, TLC
CONSTANTS Sizes, Devs, MaxReps
VARIABLES pc, k, eq
vars == <<req, ran, res, out, status, pc, k, eq>>
Reqs == [alg : Known \cup {"", "Single"}, n : Sizes, bt : BOOLEAN, reps : 1..MaxReps, verbose : {0}, check : BOOLEAN, help : BOOLEAN]
Dev == {[fin |-> TRUE, d |-> x] : x \in Devs \cup {0 - y : y \in Devs}} \cup {[fin |-> FALSE, d |-> 0]}
Lens(n) == {0, n * n - 1, n * n, n * n + 1}
\* a result: which elements differ, and how
Results(n) == UNION {{[len |-> l, wrong |-> {[i |-> i, fin |-> f[i].fin, d |-> f[i].d] : i \in DOMAIN f}, there |-> TRUE]
                      : f \in UNION {[S -> Dev] : S \in {T \in SUBSET (0..(l - 1)) : Cardinality(T) <= 2}}} : l \in Lens(n)}
ResultsOf == [n \in Sizes |-> Results(n)]
Init == \E r \in Reqs : CliInit(r) /\ pc = "start" /\ k = 0 /\ eq = TRUE
Go(p) == pc' = p /\ UNCHANGED <<k, eq>>
Rows == [i \in 1..req.n |-> [j \in 1..req.n |-> IF i = j THEN "1" ELSE "x"]]
Start == pc = "start" /\ UNCHANGED cvars /\ Go(Outcome(req))
Help == pc = "help" /\ Print([kind |-> "opts", names |-> OptionNames]) /\ Go("exit0")
Unknown == pc = "unknown" /\ Print([kind |-> "invalid", name |-> req.alg]) /\ Go("exit1")
Refuse == pc = "refuse" /\ UNCHANGED cvars /\ Go("abort")
Mult == pc = "multiply" /\ \E c \in May(req.alg) : Run(c) /\ Go("multiply")
MultOk == pc = "multiply" /\ Must(req.alg) \subseteq ran /\ (\E rs \in ResultsOf[req.n] : Result(rs)) /\ Go("report")
Report == pc = "report" /\ Print([kind |-> "total", n |-> req.n]) /\ Go(IF req.check THEN "compare" ELSE "exit0")
\* std::equal over both ranges
At(i) == IF \E x \in res.wrong : x.i = i THEN CHOOSE x \in res.wrong : x.i = i ELSE [i |-> i, fin |-> TRUE, d |-> 0]
Compare == pc = "compare" /\ UNCHANGED cvars /\
           IF res.len # req.n * req.n THEN eq' = FALSE /\ pc' = "verdict" /\ k' = k
           ELSE IF k = res.len THEN pc' = "verdict" /\ UNCHANGED <<k, eq>>
           ELSE IF ~At(k).fin \/ At(k).d > 99999 \/ At(k).d < 0 - 99999 THEN eq' = FALSE /\ pc' = "verdict" /\ k' = k
           ELSE k' = k + 1 /\ UNCHANGED <<pc, eq>>
\* not guarded by Right: that the verdict is the right one is what is checked
Verdict == pc = "verdict" /\ out' = out \cup {[kind |-> "verdict", pass |-> eq]} /\ UNCHANGED <<req, ran, res, status>> /\ Go("exit0")
Stop == pc \in {"exit0", "exit1", "abort"} /\ status' = <<IF pc = "exit0" THEN 0 ELSE IF pc = "exit1" THEN 1 ELSE 0 - 6>>
Leave == Stop /\ pc' = "done" /\ UNCHANGED <<req, ran, res, out, k, eq>>
Next == Start \/ Help \/ Unknown \/ Refuse \/ Mult \/ MultOk \/ Report \/ Compare \/ Verdict \/ Leave
Spec == Init /\ [][Next]_vars /\ WF_vars(Next /\ ~Mult) /\ WF_vars(Mult /\ ran' # ran)
Done == pc = "done"
NothingElse == ran # {} => Outcome(req) = "multiply" /\ ran \subseteq May(req.alg)
HelpOnlyHelps == req.help => ran = {} /\ Kinds \subseteq {"opts"}
StatusTells == Done => (status = <<0>> <=> Outcome(req) \in {"help", "multiply"}) /\ (status = <<1>> <=> Outcome(req) = "unknown")
NoResultIfRefused == Outcome(req) \in {"refuse", "unknown"} => Kinds \cap {"total", "avg", "perf", "C", "verdict"} = {}
VerdictRight == \A o \in out : o.kind = "verdict" =>
                  (o.pass <=> res.len = req.n * req.n /\ \A i \in 0..(res.len - 1) : At(i).fin /\ At(i).d > 0 - 100000 /\ At(i).d < 100000)
\* every verdict and end of the program is one the specification allows
Fits == [][\/ UNCHANGED cvars \/ (\E c \in ran' : Run(c)) \/ Result(res') \/ (\E o \in out' \ out : Print(o)) \/ (status # status' /\ Exit(status'[1]))]_cvars
Ends == <>Done
=============================================================================
