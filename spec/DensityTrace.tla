---------------------------- MODULE DensityTrace ----------------------------
(* Quadrature grids, normal scores and mixture densities from the library.    *)
EXTENDS Density, TraceBase
S0 == [x |-> <<>>, y |-> <<>>, mu |-> <<>>, c |-> <<>>, m |-> <<>>, data |-> <<>>, held |-> <<>>]
Mix(e) == [w |-> e.w, mu |-> e.mu, c |-> e.c]
SameMix(a, b, tol) == RSame(a.w, b.w, tol, tol) /\ RSame(a.mu, b.mu, tol, tol) /\ RSame(a.c, b.c, tol, tol)
Cov(y, a, b) == LET ma == RDiv(RSum(y[a]), Len(y[a]))
                    mb == RDiv(RSum(y[b]), Len(y[b]))
                IN RDiv(RSum([i \in 1..Len(y[a]) |-> RMul(RSub(y[a][i], ma), RSub(y[b][i], mb))]), Len(y[a]) - 1)
\* held-out likelihoods of one candidate
Total(held, comps) == RSum(LET h == SelectSeq(held, LAMBDA a : a.comps = comps) IN [i \in 1..Len(h) |-> h[i].ll])
Step(t, e) ==
  CASE Raised(e) -> [st |-> t, bad |-> {"raised"}]
    [] e.op = "grid" ->
        [st |-> t, bad |-> C("points_in_every_dimension", Len(e.w) = e.count /\ Len(e.points) = e.count)
                \cup C("weights_are_shares", (\A i \in 1..Len(e.w) : RLt(0, e.w[i])) /\ RClose(RSum(e.w), 1, "1/1000000", 0))
                \cup C("harness_degrees", \A a \in 1..Len(e.alphas) : Exact(e.n, e.cov, e.alphas[a]))
                \cup C("integrates_polynomials_exactly", \A a \in 1..Len(e.alphas) :
                        RClose(Average(e.w, e.points, e.alphas[a]), Moment(e.mu, e.cov, e.alphas[a]), RMul("1/50000", AverageAbs(e.w, e.points, e.alphas[a])), 0))]
    [] e.op = "scores" ->    \* x[v], y[v]: columns of the sample and their normal scores
        [st |-> [t EXCEPT !.x = e.x, !.y = e.y, !.mu = e.mu, !.c = e.c],
         bad |-> C("scores_are_quantiles_of_the_ranks", \A v \in 1..Len(e.x) : \A i \in 1..Len(e.x[v]) :
                        \E p \in Ranks(e.x[v], e.x[v][i]) : RClose(RPhi(e.y[v][i]), p, "1/100000", 0))
            \cup C("every_rank_once", \A v \in 1..Len(e.x) : RSame([i \in 1..Len(e.y[v]) |-> RPhi(RSort(e.y[v])[i])], [i \in 1..Len(e.y[v]) |-> RDiv(i, Len(e.y[v]) + 1)], "1/100000", 0))
            \cup C("keeps_order", \A v \in 1..Len(e.x) : \A i, k \in 1..Len(e.x[v]) : ~RLt(e.x[v][i], e.x[v][k]) \/ RLt(e.y[v][i], e.y[v][k]))
            \cup C("normal_of_the_scores", \A a \in 1..Len(e.y) : RClose(e.mu[a], RDiv(RSum(e.y[a]), Len(e.y[a])), "1/50000", 0)
                                              /\ \A b \in 1..Len(e.y) : RClose(e.c[a][b], Cov(e.y, a, b), "1/20000", "1/20000"))]
    [] e.op = "density" ->   \* sx, sy: sample and normal scores by column, ascending
        LET z(p) == [v \in 1..Len(p) |-> Interp(e.sx[v], e.sy[v], p[v])]
        IN [st |-> t, bad |-> C("harness_sorted", \A v \in 1..Len(e.sx) : Sorted(e.sx[v]) /\ RSame(e.sx[v], RSort(t.x[v]), 0, 0) /\ RSame(e.sy[v], RSort(t.y[v]), 0, 0))
                \cup C("normal_density_of_the_scores", \A i \in 1..Len(e.p) : RClose(e.out[i], NormalDensity(z(e.p[i]), t.mu, t.c), "1/100000", "1/500"))]
    [] e.op = "change" ->    \* density of the data themselves: scores change with the data
        LET z(p) == [v \in 1..Len(p) |-> Interp(e.sx[v], e.sy[v], p[v])]
            s(p) == FoldLeft(LAMBDA a, v : RMul(a, SlopeAt(e.sx[v], e.sy[v], Piece(e.sx[v], p[v]))), "1", [v \in 1..Len(p) |-> v])
        IN [st |-> t, bad |-> C("density_of_the_data", \A i \in 1..Len(e.p) : RClose(e.out[i], RMul(s(e.p[i]), NormalDensity(z(e.p[i]), t.mu, t.c)), "1/100000", "1/500"))]
    [] e.op = "interp" ->
        [st |-> t, bad |-> C("straight_between_and_beyond", \A i \in 1..Len(e.p) : RClose(e.out[i], Interp(e.sx, e.sy, e.p[i]), "1/50000", "1/50000"))]
    [] e.op = "mixture" -> [st |-> [t EXCEPT !.m = Mix(e)], bad |-> C("weights_sum_to_one", RClose(RSum(e.w), 1, "1/50000", 0))]
    [] e.op = "em" ->        \* n rounds from the state's mixture
        [st |-> [t EXCEPT !.m = Mix(e), !.data = e.data],
         bad |-> C("expectation_maximization", SameMix(Mix(e), Steps(t.m, e.data, e.n), "1/2000"))
            \cup C("weights_sum_to_one", RClose(RSum(e.w), 1, "1/50000", 0))]
    [] e.op = "fitted" ->    \* many rounds
        [st |-> [t EXCEPT !.m = Mix(e), !.data = e.data],
         bad |-> C("never_less_likely", RLe(LogLik(t.m, e.data), RAdd(LogLik(Mix(e), e.data), "1/1000")))
            \cup C("mean_of_the_data", \A d \in 1..Len(e.data[1]) : RClose(MixtureMean(Mix(e), d), MeanOf(e.data, d), "1/5000", "1/5000"))]
    [] e.op = "pdf" -> [st |-> t, bad |-> C("weighted_sum_of_normals", \A i \in 1..Len(e.p) : RClose(e.out[i], Mixture(t.m, e.p[i]), "1/100000", "1/500"))]
    [] e.op = "loglik" -> [st |-> t, bad |-> C("log_of_the_density_summed", RClose(e.out, LogLik(t.m, e.p), "1/1000", "1/2000"))]
    [] e.op = "held" ->      \* a candidate scored on held-out members; mean: of the mixture scored; rows: indices scored
        LET rest == SelectSeq([i \in 1..Len(e.data) |-> i], LAMBDA i : \A a \in 1..Len(e.rows) : e.rows[a] # i)
        IN [st |-> [t EXCEPT !.held = Append(@, [comps |-> e.comps, ll |-> e.ll, rows |-> e.rows])],
            bad |-> C("fitted_to_the_others_only", \A d \in 1..Len(e.mean) : RClose(e.mean[d], MeanOf([i \in 1..Len(rest) |-> e.data[rest[i]]], d), "1/1000", "1/1000"))]
    [] e.op = "selected" ->
        LET tot(c) == Total(t.held, c)
            C1 == {e.candidates[i] : i \in 1..Len(e.candidates)}
        IN [st |-> t,
            bad |-> C("every_member_held_out_once_for_every_candidate", Len(e.candidates) = 1 \/ \A c \in C1 :
                        RSort(FoldLeft(LAMBDA a, h : a \o h.rows, <<>>, SelectSeq(t.held, LAMBDA b : b.comps = c))) = [i \in 1..e.n |-> i])
               \cup C("best_held_out_likelihood", e.comps \in C1 /\ (Len(e.candidates) = 1 \/ \A c \in C1 : RLe(tot(c), RAdd(tot(e.comps), "1/1000"))))
               \cup C("fitted_to_everyone", \A d \in 1..Len(e.mean) : RClose(e.mean[d], MeanOf(e.data, d), "1/1000", "1/1000"))]
    [] OTHER -> [st |-> t, bad |-> {"unknown_event"}]
TraceInit == l = 1 /\ st = S0
TraceNext == /\ l <= Len(Trace)
             /\ LET e == Trace[l]
                    r == Step(IF e.first THEN S0 ELSE st, e)
                IN /\ st' = r.st
                   /\ l' = l + 1
                   /\ (r.bad = {} \/ PrintT(<<"FAIL", l, e.op, r.bad>>))
TraceSpec == TraceInit /\ [][TraceNext]_<<l, st>>
TraceAccepted ==
  /\ PrintT(<<"ACCEPTED", TLCGet("stats").diameter - 1>>)
  /\ \A o \in {Trace[i].op : i \in 1..Len(Trace)} : PrintT(<<"STAT", o, Cardinality({i \in 1..Len(Trace) : Trace[i].op = o})>>)
=============================================================================
