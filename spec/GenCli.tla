------------------------------- MODULE GenCli -------------------------------
(* Random command lines, and random changes to the result.  "opt" holds the    *)
(* options given; those left out have their defaults.                          *)
EXTENDS Cli, GenKit
VARIABLES stage, g
vars == <<req, ran, res, out, status, stage, g>>
Tamper == EnvNat("VF_TAMPER", 0)
Odd == {"", "Single", "SINGLE", "single ", " single", "kernel", "kernel_tiled2", "kernel_", "loop", "looped,semi", "semi_", "static_improved",
        "pseudo", "recursive", "algorithm", "0", "combine", "naive", "--help", "\"single\""}
(* names one character or one ending away from a known one, and halves of two  *)
Near == UNION {{SubSeq(a, 1, Len(a) - 1), SubSeq(a, 2, Len(a)), a \o "s", a \o "ing", a \o "_", a \o a, "x" \o a, a \o " 1",
                SubSeq(a, 1, Len(a) - 1) \o "X"} : a \in Known} \cup {SubSeq(a, 1, 4) \o SubSeq(b, 5, Len(b)) : a, b \in Known}
Strange == (Odd \cup Near) \ Known
Put(f, x) == g' = [g EXCEPT !.opt = [y \in DOMAIN @ \cup {f} |-> IF y = f THEN x ELSE @[y]]]
Init == CliInit(Defaults) /\ stage = 1 /\ g = [opt |-> <<>>, dev |-> <<>>]
Keep == UNCHANGED cvars /\ stage' = stage + 1
Alg == \/ \E w \in 1..5 : \E a \in Known : Put("alg", a)
       \/ Tamper = 0 /\ \E a \in Strange : Put("alg", a)
       \/ UNCHANGED g
Size == (\E n \in 1..12 : Put("n", n)) \/ (\E n \in {16, 17, 20, 24, 32, 33, 40} : Put("n", n)) \/ UNCHANGED g
Bool(f) == (\E b \in BOOLEAN : Put(f, b)) \/ UNCHANGED g
Check == IF Tamper = 1 THEN Put("check", TRUE) ELSE Bool("check")
Rep == (\E r \in 1..3 : Put("reps", r)) \/ UNCHANGED g
Verb == (\E r \in 0..2 : Put("verbose", r)) \/ UNCHANGED g
Hlp == IF Tamper = 1 THEN UNCHANGED g ELSE (\E w \in 1..7 : UNCHANGED g /\ w > 0) \/ Put("help", TRUE)
Vals == {"1e-13", "-1e-11", "9e-11", "-9e-11", "9.9e-11", "1.01e-10", "1.1e-10", "-1.1e-10", "1e-9", "-1e-8", "1e-5", "0.5", "-1", "3", "1e6", "nan", "-nan", "inf", "-inf"}
Dev(n) ==
  LET Max == n * n
      Add(r) == g' = [g EXCEPT !.dev = Append(@, r)]
  IN \/ UNCHANGED g
     \/ \E w \in 1..6 : \E k \in {0, Max - 1, Max \div 2, n - 1, n, (Max * w) \div 7} : \E v \in Vals : Add([op |-> "add", i |-> k, x |-> v])
     \/ \E k \in {0, Max - 1, Max \div 3} : \E v \in {"0", "nan", "inf", "1", "-0.25"} : Add([op |-> "set", i |-> k, x |-> v])
     \/ \E k \in {0, 1, n, Max - 1, Max + 1, Max + n, 2 * Max} : \E v \in {"0", "1", "nan"} : Add([op |-> "resize", i |-> k, x |-> v])
     \/ \E v \in {"0", "1", "nan"} : Add([op |-> "fill", i |-> 0, x |-> v])
     \/ Add([op |-> "transpose", i |-> 0, x |-> "0"])
     \/ \E k \in {0, Max \div 2} : Add([op |-> "swap", i |-> k, x |-> ToString(Max - 1)])
     \/ \E v \in {"9e-11", "2e-10"} : Add([op |-> "addall", i |-> 0, x |-> v])
NN == IF "n" \in DOMAIN g.opt THEN g.opt.n ELSE 4
Fin == stage = 10 /\ Emit([opt |-> g.opt, dev |-> g.dev]) /\ stage' = 11 /\ UNCHANGED <<req, ran, res, out, status, g>>
Next == \/ stage = 1 /\ Alg /\ Keep
        \/ stage = 2 /\ Size /\ Keep
        \/ stage = 3 /\ Bool("bt") /\ Keep
        \/ stage = 4 /\ Check /\ Keep
        \/ stage = 5 /\ Rep /\ Keep
        \/ stage = 6 /\ Verb /\ Keep
        \/ stage = 7 /\ Hlp /\ Keep
        \/ stage \in {8, 9} /\ (IF Tamper = 1 THEN Dev(NN) ELSE UNCHANGED g) /\ Keep
        \/ Fin
Spec == Init /\ [][Next]_vars
=============================================================================
