------------------------------- MODULE GenKit -------------------------------
(* Generation of behaviours as JSON, for replay in the implementation.  The    *)
(* generators are run with `tlc -simulate`: the simulator resolves every       *)
(* nondeterministic choice, a final step (its only successor) emits the case.  *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
Emit(x) == PrintT("CASE " \o ToJson(x))
EnvNat(name, def) == IF name \in DOMAIN IOEnv THEN atoi(IOEnv[name]) ELSE def
EnvStr(name, def) == IF name \in DOMAIN IOEnv THEN IOEnv[name] ELSE def
=============================================================================
