---------------------------- MODULE ScoringTrace ----------------------------
(* Latent scores recorded from the library.                                  *)
(* setup: responses and prior precision; space: two sets of latent points    *)
(* (the narrowest box and a wide one) with the model's probabilities there.  *)
EXTENDS Scoring, TraceBase
S0 == [x |-> <<>>, Prec |-> <<>>, v |-> <<>>]
Best(cand, P, r, Prec) == FoldLeft(LAMBDA a, g : RMax2(a, Objective(cand[g], P[g], r, Prec)), Objective(cand[1], P[1], r, Prec), [g \in 1..Len(cand) |-> g])
Step(t, e) ==
  CASE Raised(e) -> [st |-> t, bad |-> {"raised"}]
    [] e.op = "setup" -> [st |-> [S0 EXCEPT !.x = e.x, !.Prec = e.Prec], bad |-> C("prior_of_the_case", IsInverse(e.Prec, e.Cov, "1/1000"))]
    [] e.op = "eap" ->
        LET a == EAP(e.G1, e.P1, t.Prec, t.x)
            b == EAP(e.G2, e.P2, t.Prec, t.x)
        IN [st |-> [t EXCEPT !.v = e.v],
            bad |-> C("posterior_mean", Len(e.v) = Len(t.x) /\ \A i \in 1..Len(t.x) : Len(e.v[i]) = Len(e.G1[1]) /\ \A v \in 1..Len(e.G1[1]) : Between(e.v[i][v], a[i][v], b[i][v], e.tol))]
    [] e.op = "optimum" ->      \* v: scores, P: probabilities there, G, Q: candidate points and probabilities there
        LET prec == IF e.method = "MAP" THEN t.Prec ELSE <<>>
            own == RForce([i \in 1..Len(t.x) |-> Objective(e.v[i], e.P[i], t.x[i], prec)])
            best == RForce([i \in 1..Len(t.x) |-> Best(e.G, e.Q, t.x[i], prec)])
        IN [st |-> [t EXCEPT !.v = e.v],
            bad |-> C("rows", Len(e.v) = Len(t.x))
                 \cup (IF e.concave THEN C("best_for_every_respondent", \A i \in 1..Len(t.x) : RLe(best[i], RAdd(own[i], e.tol)))
                       ELSE C("never_worse_than_the_start", RLe(RSum(best), RAdd(RSum(own), e.tol))))]
    [] e.op = "encoded" -> [st |-> [t EXCEPT !.v = e.v], bad |-> C("output_of_the_encoder", RSame(e.v, e.enc, "1/100000", "1/100000"))]
    [] e.op = "part" ->        \* the same question about some of the respondents, in another order
        [st |-> t, bad |-> C("own_responses_own_row", RSame(e.v, [a \in 1..Len(e.rows) |-> t.v[e.rows[a]]], e.tol, e.tol))]
    [] e.op = "errors" ->      \* standard errors from the information matrix at the score
        [st |-> t, bad |-> C("same_scores", RSame(e.v, e.w, e.tol, e.tol))
                           \cup C("from_the_information", \A i \in 1..Len(e.v), v \in 1..Len(e.v[1]) : RClose(RMul(RMul(e.se[i][v], e.se[i][v]), e.info[i][v][v]), 1, "1/1000", 0))]
    [] e.op = "spread" ->      \* standard errors from the encoder
        [st |-> t, bad |-> C("spread_of_the_encoder", RSame(e.se, e.sd, "1/100000", "1/10000"))]
    [] e.op = "interval" ->
        [st |-> t, bad |-> C("credible_interval", \A i \in 1..Len(e.mid), v \in 1..Len(e.mid[1]) :
                              /\ RClose(e.mid[i][v], e.v[i][v], "1/100000", "1/100000")
                              /\ RClose(RPhi(RDiv(RSub(e.lo[i][v], e.v[i][v]), e.sd[i][v])), RDiv(e.alpha, 2), "1/2000", 0)
                              /\ RClose(RPhi(RDiv(RSub(e.hi[i][v], e.v[i][v]), e.sd[i][v])), RSub(1, RDiv(e.alpha, 2)), "1/2000", 0))]
    [] OTHER -> [st |-> t, bad |-> {"unknown_event"}]
TraceInit == l = 1 /\ st = S0
TraceNext == /\ l <= Len(Trace)
             /\ LET e == Trace[l]
                    r == Step(IF e.first THEN S0 ELSE st, e)
                IN /\ st' = r.st
                   /\ l' = l + 1
                   /\ (r.bad = {} \/ PrintT(<<"FAIL", l, e.op, r.bad>>))
TraceSpec == TraceInit /\ [][TraceNext]_<<l, st>>
TraceAccepted ==
  /\ PrintT(<<"ACCEPTED", TLCGet("stats").diameter - 1>>)
  /\ \A o \in {Trace[i].op : i \in 1..Len(Trace)} : PrintT(<<"STAT", o, Cardinality({i \in 1..Len(Trace) : Trace[i].op = o})>>)
=============================================================================
