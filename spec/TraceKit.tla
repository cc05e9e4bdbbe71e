------------------------------ MODULE TraceKit ------------------------------
(* Trace validation: a file of recorded cases, each with a list of events.     *)
(* Register k holds the highest event number reached for case k; a case is     *)
(* accepted when all its events were explained.  Run with -workers 1.          *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.VF_TRACE)
NumCases == Len(Cases)
ASSUME \A k \in 1..NumCases : TLCSet(k, 0)
Reach(k, i) == TLCSet(k, IF i > TLCGet(k) THEN i ELSE TLCGet(k))
Report ==
  JsonSerialize(IOEnv.VF_OUT,
    [n |-> NumCases,
     reached |-> [k \in 1..NumCases |-> TLCGet(k)],
     needed |-> [k \in 1..NumCases |-> Len(Cases[k].ev)]])
=============================================================================
