----------------------------- MODULE TraceBase -----------------------------
(* Shared shape of every trace specification.  Trace is the recorded run of  *)
(* the real library, one event per specification step.  A trace module       *)
(* extends this one and its domain specification, defines Step(s, e) - the   *)
(* successor of the specification state s under the recorded event e, and    *)
(* the set of clauses of the specification the event contradicts - and       *)
(* instantiates TraceNext with it.  Verdicts are total: a rejected event is  *)
(* reported with the names of the failing clauses and the rest of the trace  *)
(* is still examined.                                                        *)
EXTENDS Rat, Json, IOUtils, TLC, FiniteSets
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES l, st
C(name, ok) == IF ok THEN {} ELSE {name}
\* an event that raised where the specification has a result
Raised(e) == e.err # ""
TLen == TLCGet(41)
=============================================================================
