-------------------------------- MODULE Cli ---------------------------------
(* The program: from its options to what it runs, prints and returns.          *)
(* req: alg, n, bt (B transposed), reps, verbose, check, help                  *)
(* ran: the classes whose multiplication ran                                   *)
(* res: the result handed to the program: its length and the elements that     *)
(*      differ from the product: [i, fin (finite), d (difference * 1e15)]      *)
(* out: what was printed, at most one record of a kind                         *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
VARIABLES req, ran, res, out, status
cvars == <<req, ran, res, out, status>>
Loops == {"algorithms", "looped", "semi"}
Known == {"single", "pseudodynamic", "combined", "kernel_test", "kernel_tiled"} \cup Loops
OptionNames == {"n-value", "transposed", "repetitions", "verbose", "block-result", "block-input", "check", "algorithm",
                "min-work-size", "max-work-difference", "max-relative-work-difference", "help"}
Defaults == [alg |-> "single", n |-> 4, bt |-> TRUE, reps |-> 1, verbose |-> 0, check |-> FALSE, help |-> FALSE]
Outcome(r) == CASE r.help -> "help"
                [] ~r.help /\ r.alg \notin Known -> "unknown"
                [] ~r.help /\ ((r.alg \in Loops /\ ~r.bt) \/ (r.alg = "combined" /\ r.bt)) -> "refuse"
                [] OTHER -> "multiply"
\* what has to run for an algorithm, and what else may take part in it
Must(a) == IF a = "single" THEN {"recursive"} ELSE IF a = "pseudodynamic" THEN {"static_improved", "recursive"} ELSE {a}
May(a) == Must(a) \cup IF a \in {"single", "pseudodynamic"} THEN {a} ELSE {}
\* these multiply once, whatever the number of repetitions
Runs(r) == IF r.alg \in Loops THEN 1 ELSE r.reps
Limit == 100000   \* 1e-10
Close(x) == x.fin /\ x.d > -Limit /\ x.d < Limit
Right(rs, n) == rs.len = n * n /\ \A x \in rs.wrong : Close(x)
None == [len |-> 0, wrong |-> {}, there |-> FALSE]
CliInit(r) == req = r /\ ran = {} /\ res = None /\ out = {} /\ status = <<>>
Running == status = <<>>
Kinds == {o.kind : o \in out}
Run(c) == Running /\ Outcome(req) = "multiply" /\ c \in May(req.alg) /\ ran' = ran \cup {c} /\ UNCHANGED <<req, res, out, status>>
\* the last result counts
Result(rs) == Running /\ Outcome(req) = "multiply" /\ res' = rs /\ UNCHANGED <<req, ran, out, status>>
Ident(n) == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN "1" ELSE "0"]]
Zero(n) == [i \in 1..n |-> [j \in 1..n |-> "0"]]
Shown(k) == (CHOOSE o \in out : o.kind = k).rows
\* what may be printed
Allowed(o) ==
  LET w == Outcome(req)
      untouched == res.len = req.n * req.n /\ res.wrong = {}
  IN CASE o.kind = "opts" -> w = "help" /\ o.names = OptionNames
       [] o.kind = "A" -> w # "help" /\ req.verbose >= 2
       [] o.kind = "B" -> w # "help" /\ req.verbose >= 2 /\ o.rows = Ident(req.n)
       [] o.kind = "C" -> w = "multiply" /\ req.verbose >= 2 /\ (untouched /\ "A" \in Kinds => o.rows = Shown("A"))
       [] o.kind = "Cref" -> w = "multiply" /\ req.verbose >= 2 /\ req.check /\ ("A" \in Kinds => o.rows = Shown("A"))
       [] o.kind = "diff" -> w = "multiply" /\ req.verbose >= 2 /\ req.check /\ (untouched => o.rows = Zero(req.n))
       [] o.kind = "total" -> w = "multiply" /\ o.n = req.n
       [] o.kind = "avg" -> w = "multiply" /\ o.n = req.n /\ o.reps = Runs(req) /\ o.ppm < 50
       [] o.kind = "perf" -> w = "multiply" /\ o.n = req.n /\ o.ppm < 50
       [] o.kind = "invalid" -> w = "unknown" /\ o.name = req.alg
       [] o.kind = "verdict" -> w = "multiply" /\ req.check /\ res.there /\ (o.pass <=> Right(res, req.n))
Print(o) == Running /\ o.kind \notin Kinds /\ Allowed(o) /\ out' = out \cup {o} /\ UNCHANGED <<req, ran, res, status>>
Exit(st) ==
  /\ Running
  /\ LET w == Outcome(req)
     IN CASE w = "help" -> "opts" \in Kinds /\ st = 0
          [] w = "unknown" -> "invalid" \in Kinds /\ st = 1
          [] w = "refuse" -> st # 0
          [] w = "multiply" -> /\ Must(req.alg) \subseteq ran
                               /\ "total" \in Kinds
                               /\ ("verdict" \in Kinds <=> req.check)
                               /\ st = 0
  /\ status' = <<st>>
  /\ UNCHANGED <<req, ran, res, out>>
=============================================================================
