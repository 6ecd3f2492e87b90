-------------------------- MODULE LifecycleTrace --------------------------
(* Sessions recorded from the real library.  Every event carries the state   *)
(* after the call: a fingerprint of every component of every model, of every *)
(* tensor the caller holds, and of the environment.                           *)
EXTENDS Lifecycle, TraceBase
S0 == [models |-> <<>>, tensors |-> <<>>, env |-> "", files |-> <<>>, known |-> <<>>]
Bad(c) == C(c, FALSE)
Others(t, e) == C("other_models_unchanged", \A m \in DOMAIN t.models : m # e.m => e.models[m] = t.models[m])
Caller(t, e) == C("callers_tensors_unchanged", \A a \in DOMAIN t.tensors : e.tensors[a] = t.tensors[a])
                \cup C("environment_unchanged", e.env = t.env)
Own(t, e, op) == UNION {C(c \o "_unchanged", e.models[e.m][c] = t.models[e.m][c]) : c \in Components \ MayChange(op)}
Frame(t, e, op) == Others(t, e) \cup Caller(t, e) \cup Own(t, e, op)
After(t, e) == [t EXCEPT !.models = e.models, !.tensors = e.tensors, !.env = e.env]
Key(t, e) == [s |-> Decides(t.models[e.m]), q |-> e.q, d |-> e.d]
Step(t, e) ==
  CASE e.op = "session" -> [st |-> [S0 EXCEPT !.models = e.models, !.tensors = e.tensors, !.env = e.env], bad |-> IF Raised(e) THEN {"raised"} ELSE {}]
    [] e.op = "caller" -> [st |-> After(t, e), bad |-> IF Raised(e) THEN {"raised"} ELSE Others(t, e)]
    [] e.op = "ask" ->
        LET k == Key(t, e)
            old == {i \in 1..Len(t.known) : t.known[i].k = k}
            same == \A i \in old : /\ t.known[i].out = e.out
                                   /\ RSame(e.v, t.known[i].v, e.tol, e.tol)
        IN [st |-> IF old = {} THEN [After(t, e) EXCEPT !.known = Append(@, [k |-> k, v |-> e.v, out |-> e.out])] ELSE After(t, e),
            bad |-> Frame(t, e, "ask") \cup C("same_question_same_answer", same)]
    [] Raised(e) -> [st |-> After(t, e), bad |-> {"raised"}]
    [] e.op = "fit" -> [st |-> After(t, e), bad |-> Frame(t, e, "fit")]
    [] e.op \in {"scale", "density", "freeze", "mode"} -> [st |-> After(t, e), bad |-> Frame(t, e, e.op)]
    [] e.op = "save" -> [st |-> [After(t, e) EXCEPT !.files = Append(@, [f |-> e.f, s |-> Saved(t.models[e.m])])], bad |-> Frame(t, e, "save")]
    [] e.op = "load" ->
        LET i == CHOOSE a \in 1..Len(t.files) : t.files[a].f = e.f /\ \A b \in (a + 1)..Len(t.files) : t.files[b].f # e.f
            f == t.files[i].s
        IN [st |-> After(t, e), bad |-> Frame(t, e, "load") \cup UNION {C("loaded_" \o c, e.models[e.m][c] = f[c]) : c \in DOMAIN f}]
    [] e.op = "copy" -> [st |-> After(t, e), bad |-> Caller(t, e) \cup C("original_unchanged", e.models[e.m] = t.models[e.m])
                                              \cup C("copy_equals_original", \A c \in Components : e.models[e.to][c] = t.models[e.m][c])]
    [] e.op = "holds" -> [st |-> t, bad |-> C(e.clause, RSame(e.v, e.want, e.tol, e.tol))]
    [] OTHER -> [st |-> t, bad |-> {"unknown_event"}]
TraceInit == l = 1 /\ st = S0
TraceNext == /\ l <= Len(Trace)
             /\ LET e == Trace[l]
                    r == Step(IF e.first THEN S0 ELSE st, e)
                IN /\ st' = r.st
                   /\ l' = l + 1
                   /\ (r.bad = {} \/ PrintT(<<"FAIL", l, e.op, r.bad>>))
TraceSpec == TraceInit /\ [][TraceNext]_<<l, st>>
TraceAccepted ==
  /\ PrintT(<<"ACCEPTED", TLCGet("stats").diameter - 1>>)
  /\ \A o \in {Trace[i].op : i \in 1..Len(Trace)} : PrintT(<<"STAT", o, Cardinality({i \in 1..Len(Trace) : Trace[i].op = o})>>)
=============================================================================
