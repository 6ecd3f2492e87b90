---------------------------- MODULE MissingTrace ----------------------------
(* Answers recorded on a data set and on its recoded / reduced variants.     *)
EXTENDS Missing, TraceBase
S0 == [ref |-> <<>>, q |-> <<>>]
Find(t, q) == CHOOSE a \in 1..Len(t.q) : t.q[a] = q
\* direct answers agree to rounding; optimized scores and fitted models to their convergence
Eps(e) == CASE e.class = "direct" -> "1/50000" [] e.class = "scored" -> "1/500" [] e.class = "fit" -> "1/500"
Step(t, e) ==
  CASE Raised(e) -> [st |-> t, bad |-> {"raised"}]
    [] e.op = "data" -> [st |-> S0, bad |-> {}]
    [] e.op = "base" -> [st |-> [q |-> Append(t.q, e.q), ref |-> Append(t.ref, e.v)], bad |-> {}]
    [] e.op = "loglik" ->
        [st |-> t, bad |-> C("only_observed_responses_contribute", RSame(e.v, SumAt(LogLik(e.P, e.x), e.level), "1/2000", "1/20000"))]
    [] e.op = "variant" ->
        IF \A a \in 1..Len(t.q) : t.q[a] # e.q THEN [st |-> t, bad |-> {"unknown_question"}]
        ELSE LET full == t.ref[Find(t, e.q)]
             IN [st |-> t, bad |-> C(IF e.kind = "recode" THEN "same_answer_for_both_codings" ELSE "same_answer_without_the_missing_entries",
                                     RSame(e.v, Project(e.shape, full, e.rows, e.items), Eps(e), Eps(e)))]
    [] OTHER -> [st |-> t, bad |-> {"unknown_event"}]
TraceInit == l = 1 /\ st = S0
TraceNext == /\ l <= Len(Trace)
             /\ LET e == Trace[l]
                    r == Step(IF e.first THEN S0 ELSE st, e)
                IN /\ st' = r.st
                   /\ l' = l + 1
                   /\ (r.bad = {} \/ PrintT(<<"FAIL", l, e.op, r.bad>>))
TraceSpec == TraceInit /\ [][TraceNext]_<<l, st>>
TraceAccepted ==
  /\ PrintT(<<"ACCEPTED", TLCGet("stats").diameter - 1>>)
  /\ \A o \in {Trace[i].op : i \in 1..Len(Trace)} : PrintT(<<"STAT", o, Cardinality({i \in 1..Len(Trace) : Trace[i].op = o})>>)
=============================================================================
