---------------------------- MODULE RankingTrace ----------------------------
(* Rank scales and outlier flags recorded from the library.                   *)
(* sample: one column of reference values per latent variable.                *)
EXTENDS Ranking, TraceBase
S0 == [cols |-> <<>>, dist |-> <<>>, slack |-> 0, bounds |-> <<>>]
Slack(t, b) == RMul(t.slack, RAdd(1, RAbs(b)))
\* flags as they may come out where a value lies on a bound up to rounding
Agree(t, b, v, lower, upper, flag) ==
  \/ flag = Flag(b, v, lower, upper)
  \/ \E k \in 1..2 : RLe(Dist(v, b[k]), Slack(t, b[k])) /\ ~REq(t.slack, 0)
Step(t, e) ==
  CASE Raised(e) -> [st |-> t, bad |-> {"raised"}]
    [] e.op = "sample" -> [st |-> [S0 EXCEPT !.cols = e.cols, !.dist = e.dist, !.slack = e.slack, !.bounds = IF e.factor = "nan" THEN <<>> ELSE [v \in 1..Len(e.cols) |-> Bounds(e.cols[v], e.factor)]],
                           bad |-> {}]
    [] e.op = "rank" ->
        [st |-> t,
         bad |-> C("rows", Len(e.out) = Len(e.theta))
            \cup C("quantile_of_the_position", \A i \in 1..Len(e.theta), v \in 1..Len(t.cols) :
                      \E p \in Positions(t.cols[v], e.theta[i][v], Slack(t, e.theta[i][v])) : RClose(Cdf(t.dist[v], e.out[i][v]), p, "1/20000", "1/20000"))
            \cup C("keeps_order", \A i, k \in 1..Len(e.theta), v \in 1..Len(t.cols) : RLe(e.theta[i][v], e.theta[k][v]) => RLe(e.out[i][v], e.out[k][v]))]
    [] e.op = "flags" ->
        [st |-> t, bad |-> C("beyond_the_quartiles_exactly", Len(e.flags) = Len(e.values) /\ \A i \in 1..Len(e.values), v \in 1..Len(t.cols) : Agree(t, t.bounds[v], e.values[i][v], e.lower, e.upper, e.flags[i][v]))]
    [] e.op = "ends" ->
        [st |-> t, bad |-> C("extreme_value_within_bounds", \A v \in 1..Len(t.cols) :
              LET b == t.bounds[v]
                  grown == <<RSub(b[1], Slack(t, b[1])), RAdd(b[2], Slack(t, b[2]))>>
                  shrunk == <<RAdd(b[1], Slack(t, b[1])), RSub(b[2], Slack(t, b[2]))>>
                  E(bb) == LET k == Kept(bb, t.cols[v]) IN IF e.smallest THEN Smallest(k) ELSE Largest(k)
              IN REq(e.out[v], E(grown)) \/ REq(e.out[v], E(shrunk)) \/ REq(e.out[v], E(b)))]
    [] e.op = "kept" -> [st |-> t, bad |-> C("reference_unchanged", RSame(e.cols, t.cols, 0, 0))]
    [] OTHER -> [st |-> t, bad |-> {"unknown_event"}]
TraceInit == l = 1 /\ st = S0
TraceNext == /\ l <= Len(Trace)
             /\ LET e == Trace[l]
                    r == Step(IF e.first THEN S0 ELSE st, e)
                IN /\ st' = r.st
                   /\ l' = l + 1
                   /\ (r.bad = {} \/ PrintT(<<"FAIL", l, e.op, r.bad>>))
TraceSpec == TraceInit /\ [][TraceNext]_<<l, st>>
TraceAccepted ==
  /\ PrintT(<<"ACCEPTED", TLCGet("stats").diameter - 1>>)
  /\ \A o \in {Trace[i].op : i \in 1..Len(Trace)} : PrintT(<<"STAT", o, Cardinality({i \in 1..Len(Trace) : Trace[i].op = o})>>)
=============================================================================
