--------------------------- MODULE ObjectiveTrace ---------------------------
(* Losses recorded from the fitting algorithms.                              *)
(* marginal: data sets x fitted in turn at the same parameters; W1/P1 prior   *)
(* weights and probabilities over the narrow box of latent points, W2/P2 over *)
(* a wide one.  joint, recon, bound: one iteration on some respondents.       *)
(* bound: both readings of the sample order and of the annealing count.       *)
EXTENDS Objective, TraceBase
S0 == [G1 |-> <<>>, W1 |-> <<>>, P1 |-> <<>>, W2 |-> <<>>, P2 |-> <<>>, c |-> "nan", losses |-> <<>>]
AllMissing(x) == \A i \in 1..Len(x) : \A j \in 1..Len(x[i]) : x[i][j] = -1
Rows(e) == e.x
\* n respondents, k samples each: sample s of respondent i
Tiled(i, s, n, k) == (s - 1) * n + i
Grouped(i, s, n, k) == (i - 1) * k + s
Bound1(e, Idx(_, _, _, _), beta) ==
  LET n == Len(e.x)  k == e.samples
      one(i) == IF k = 1 THEN Elbo(e.P[Idx(i, 1, n, k)], e.x[i], e.m[i], e.l[i], beta)
                ELSE Iwae([s \in 1..k |-> e.P[Idx(i, s, n, k)]], [s \in 1..k |-> e.t[Idx(i, s, n, k)]], e.x[i], e.m[i], e.l[i], beta)
  IN RDbl(MeanLoss([i \in 1..n |-> one(i)]))
Means(losses, s) == [w \in 1..(Len(losses) \div s) |-> RDiv(RSum(SubSeq(losses, (w - 1) * s + 1, w * s)), s)]
\* the first window is not reported when it holds a single iteration
Report(losses, s) == LET m == Means(losses, s) IN IF s = 1 THEN SubSeq(m, 2, Len(m)) ELSE m
Step(t, e) ==
  CASE Raised(e) -> [st |-> t, bad |-> {"raised"}]
    [] e.op = "space" -> [st |-> [t EXCEPT !.W1 = PriorW(e.G1, e.Prec), !.W2 = PriorW(e.G2, e.Prec), !.P1 = e.P1, !.P2 = e.P2],
                          bad |-> C("prior_of_the_case", IsInverse(e.Prec, e.Cov, "1/1000"))]
    [] e.op = "marginal" ->
        IF AllMissing(e.x)
        THEN LET c == RDiv(e.loss, Len(e.x))
             IN [st |-> [t EXCEPT !.c = c],
                 bad |-> C("covariance_kept", RSame(e.kept, e.cov, "1/100000", "1/100000"))
                    \cup C("nothing_observed_costs_nothing", (~e.normalized /\ RIsNum(c)) \/ RClose(c, 0, "1/10000", 0))]
        ELSE LET a == RAdd(RMul(Len(e.x), t.c), MarginalLoss(t.W1, t.P1, e.x))
                 b == RAdd(RMul(Len(e.x), t.c), MarginalLoss(t.W2, t.P2, e.x))
             IN [st |-> t, bad |-> C("log_of_the_average_likelihood", IF e.normalized THEN Between(e.loss, b, b, e.tol) ELSE Between(e.loss, a, b, e.tol))]
    [] e.op = "whole" ->       \* respondents are independent, however little they answered
        [st |-> t, bad |-> C("respondents_are_independent", RIsNum(e.whole) /\ (\A i \in 1..e.n : RIsNum(e.parts[i])) /\ RClose(e.whole, RSum(e.parts), "1/10", "1/2000"))]
    [] e.op = "joint" -> [st |-> [t EXCEPT !.losses = Append(@, 0)], bad |-> C("minus_the_joint_log_likelihood", RClose(e.loss, JointLoss(e.P, e.x), "1/500", "1/5000"))]
    [] e.op = "recon" -> [st |-> [t EXCEPT !.losses = Append(@, <<RDbl(ReconLoss(e.P, e.x))>>)], bad |-> {}]
    [] e.op = "bound" ->
        LET it == Len(t.losses)
            b1 == Anneal(e.anneal, it, e.limit)
            b2 == Anneal(e.anneal, it + 1, e.limit)
        IN [st |-> [t EXCEPT !.losses = Append(@, RForce(<<Bound1(e, Tiled, b1), Bound1(e, Grouped, b1), Bound1(e, Tiled, b2), Bound1(e, Grouped, b2)>>))],
            bad |-> C("samples_from_the_encoded_distribution", \A i \in 1..Len(e.x), v \in 1..Len(e.m[1]) : RLt(RAbs(RSub(e.t[Tiled(i, 1, Len(e.x), e.samples)][v], e.m[i][v])), RMul(7, RExp(RDiv(e.l[i][v], 2))))
                                                              \/ e.samples > 1)]
    [] e.op = "report" ->
        LET exp(c) == Report([k \in 1..Len(t.losses) |-> t.losses[k][c]], e.interval)
        IN [st |-> t, bad |-> C("iterations", Len(e.history) = Len(exp(1)))
                         \cup C("loss_of_the_documented_objective", \E c \in 1..Len(t.losses[1]) : RSeqClose(e.history, exp(c), "1/3000", "1/10000"))]
    [] e.op = "descent" ->     \* one small step: probabilities before and after (everything, or one part of the parameters)
        [st |-> t, bad |-> C("objective_improves", RLe(JointLoss(e.P1, e.x), RAdd(JointLoss(e.P0, e.x), e.tol)))]
    [] e.op = "descent_marginal" ->
        LET W == PriorW(e.G, e.Prec)
        IN [st |-> t, bad |-> C("objective_improves", RLe(MarginalLoss(W, e.P1, e.x), RAdd(MarginalLoss(W, e.P0, e.x), e.tol)))]
    [] e.op = "moves" ->       \* Pp: probabilities after nudging that part of the parameters
        [st |-> t, bad |-> C("parameter_that_matters_is_fitted", e.moved \/ RClose(JointLoss(e.Pp, e.x), JointLoss(e.P0, e.x), "1/50", 0))]
    [] e.op = "samples" ->     \* many samples per respondent: their mean and spread are the encoded ones
        LET n == Len(e.m)  k == e.samples
            z(Idx(_, _, _, _), i, v) == RForce([s \in 1..k |-> RDbl(RDiv(RSub(e.t[Idx(i, s, n, k)][v], e.m[i][v]), RExp(RDiv(e.l[i][v], 2))))])
            fine(Idx(_, _, _, _)) == \A i \in 1..n, v \in 1..Len(e.m[1]) :
                LET zs == z(Idx, i, v)
                IN RLt(RAbs(RDiv(RSum(zs), k)), "7/10") /\ RLt("1/3", RDiv(RDot(zs, zs), k)) /\ RLt(RDiv(RDot(zs, zs), k), "12/5")
        IN [st |-> t, bad |-> C("samples_have_the_encoded_mean_and_spread", Len(e.t) = n * k /\ (fine(Tiled) \/ fine(Grouped)))]
    [] e.op = "learns" ->      \* encoder alone, divergence switched off: expected log-likelihood, w weights of the nodes
        LET gain(P) == RSum([i \in 1..Len(e.x) |-> RSum([g \in 1..Len(e.w) |-> RMul(e.w[g], LogLik(P[(i - 1) * Len(e.w) + g], e.x[i]))])])
        IN [st |-> t, bad |-> C("encoder_learns_the_responses", RLt(RAdd(gain(e.P0), e.margin), gain(e.P1)))]
    [] OTHER -> [st |-> t, bad |-> {"unknown_event"}]
TraceInit == l = 1 /\ st = S0
TraceNext == /\ l <= Len(Trace)
             /\ LET e == Trace[l]
                    r == Step(IF e.first THEN S0 ELSE st, e)
                IN /\ st' = r.st
                   /\ l' = l + 1
                   /\ (r.bad = {} \/ PrintT(<<"FAIL", l, e.op, r.bad>>))
TraceSpec == TraceInit /\ [][TraceNext]_<<l, st>>
TraceAccepted ==
  /\ PrintT(<<"ACCEPTED", TLCGet("stats").diameter - 1>>)
  /\ \A o \in {Trace[i].op : i \in 1..Len(Trace)} : PrintT(<<"STAT", o, Cardinality({i \in 1..Len(Trace) : Trace[i].op = o})>>)
=============================================================================
