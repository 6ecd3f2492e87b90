---------------------------- MODULE RescaleTrace ----------------------------
(* Recorded answers of a model with and without scale transformations.       *)
(* e.stages[k] is what the k-th scale itself gives at stage k-1, e.J[i] the  *)
(* list of the scales' own Jacobians at the stages of respondent i.          *)
EXTENDS Rescale, TraceBase
S0 == [n |-> 0, kinds |-> <<>>, q |-> <<>>, ref |-> <<>>]
Find(t, q) == CHOOSE a \in 1..Len(t.q) : t.q[a] = q
Small == "1/100000"
Last0(stages, theta) == IF Len(stages) = 0 THEN theta ELSE stages[Len(stages)]
Whole(js, n) == JacProduct(js, n)
LocalTol(x) == RMul("1/2000", RAdd("1/100", MaxAbs(x)))
Flat(m) == FoldLeft(LAMBDA a, r : a \o r, <<>>, m)
Affine(e) == \A k \in 1..Len(e.kinds) : e.kinds[k].kind = "affine"
\* mean Kullback-Leibler divergence per latent score, over the common items
KL(P, Q) == RDiv(RSum([i \in 1..Len(P) |-> RSum([j \in 1..Len(P[i]) |-> RSum([k \in 1..Len(P[i][j]) |->
               IF REq(P[i][j][k], 0) THEN "0" ELSE RMul(P[i][j][k], RSub(RLn(P[i][j][k]), RLn(Q[i][j][k])))])])]), Len(P))
\* varimax criterion of loadings whose rows are scaled to length one
Varimax(L) ==
  LET h(i) == RDot(L[i], L[i])
      sq == RForce([i \in 1..Len(L) |-> [v \in 1..Len(L[1]) |-> IF REq(h(i), 0) THEN "0" ELSE RDiv(RMul(L[i][v], L[i][v]), h(i))]])
      n == Len(L)
      col(v) == [i \in 1..n |-> sq[i][v]]
  IN RSum([v \in 1..Len(L[1]) |-> RSub(RDiv(RDot(col(v), col(v)), n), LET m == RDiv(RSum(col(v)), n) IN RMul(m, m))])
Step(t, e) ==
  CASE Raised(e) -> [st |-> t, bad |-> {"raised"}]
    [] e.op = "model" -> [st |-> S0, bad |-> {}]
    [] e.op = "add" -> [st |-> [t EXCEPT !.n = @ + 1, !.kinds = Append(@, e.scale)], bad |-> {}]
    [] e.op = "detach" -> [st |-> [t EXCEPT !.n = 0, !.kinds = <<>>], bad |-> {}]
    [] e.op = "map" ->       \* transform_theta / inverse_transform_theta
        [st |-> t, bad |-> C("scales_apply_in_the_order_added", Len(e.stages) = t.n /\ RSame(e.out, Last0(e.stages, e.theta), Small, Small))
                \cup C("known_maps", \A k \in 1..t.n : t.kinds[k].kind # "affine"
                         \/ \A i \in 1..Len(e.theta) : RSame(e.stages[k][i], Do1(t.kinds[k], IF k = 1 THEN e.theta[i] ELSE e.stages[k - 1][i]), Small, Small))
                \cup C("transforming_back_returns_the_scores", e.back = <<>> \/ RSame(e.back, e.theta, e.backtol, e.backtol))]
    [] e.op = "jacobian" ->
        [st |-> t, bad |-> C("jacobians_multiply_along_the_stages",
                             \A i \in 1..Len(e.out) : LET J == Whole(e.J[i], Len(e.out[i]))
                                                      IN Len(e.J[i]) = t.n /\ RSame(e.out[i], J, RMul("1/20000", RAdd(1, MaxAbs(Flat(J)))), "1/20000"))]
    [] e.op = "gradient" ->  \* orig[i], resc[i]: lists of gradients at respondent i
        [st |-> t, bad |-> C("gradients_follow_the_chain_rule",
                             \A i \in 1..Len(e.orig) : LET J == Whole(e.J[i], Len(e.orig[i][1]))
                                                       IN \A a \in 1..Len(e.orig[i]) : GradMoves(e.orig[i][a], e.resc[i][a], J, LocalTol(e.orig[i][a]), 0))]
    [] e.op = "average" ->   \* the mean over respondents of the rescaled gradients
        [st |-> t, bad |-> C("population_average_of_rescaled_gradients",
                             \A a \in 1..Len(e.out) : \A v \in 1..Len(e.out[a]) :
                               RClose(e.out[a][v], RDiv(RSum([i \in 1..Len(e.resc) |-> e.resc[i][a][v]]), Len(e.resc)), "1/10000", "1/10000"))]
    [] e.op = "information" ->
        [st |-> t, bad |-> C("information_follows_the_chain_rule",
                             \A i \in 1..Len(e.orig) : LET J == Whole(e.J[i], Len(e.orig[i][1]))
                                                       IN \A a \in 1..Len(e.orig[i]) : InfoMoves(e.orig[i][a], e.resc[i][a], J, LocalTol(Flat(e.orig[i][a])), 0))
                \cup C("information_in_a_direction", \A i \in 1..Len(e.deg) : \A a \in 1..Len(e.deg[i]) :
                               RClose(e.deg[i][a], Quad(e.cos, e.resc[i][a]), LocalTol(Flat(e.resc[i][a])), 0))]
    [] e.op = "scores" ->
        [st |-> t, bad |-> C("rescaled_scores_are_the_transformed_scores", Len(e.stages) = t.n /\ RSame(e.resc, Last0(e.stages, e.orig), Small, Small))
                \cup C("standard_errors_move_with_the_scale",
                       CASE e.se = "none" -> TRUE
                         [] e.se = "delta" -> \A i \in 1..Len(e.seo) : RSame(e.ser[i], DeltaSE(Whole(e.J[i], Len(e.seo[i])), e.seo[i]), "1/10000", "1/1000")
                         [] e.se = "information" -> \A i \in 1..Len(e.ser) : LET J == Whole(e.J[i], Len(e.ser[i])) IN
                               /\ InfoMoves(e.info[i], e.infor[i], J, LocalTol(Flat(e.info[i])), 0)
                               /\ \A v \in 1..Len(e.ser[i]) : RClose(RMul(RMul(e.ser[i][v], e.ser[i][v]), e.infor[i][v][v]), 1, "1/500", 0))]
    [] e.op = "grid" ->      \* a plotted curve: the transformed grid against the curve on the original one
        [st |-> t, bad |-> C("plots_show_the_transformed_grid", RSame(e.x, Last0(e.stages, e.theta), "1/5000", "1/5000") /\ RSame(e.y, e.want, "1/5000", "1/5000"))]
    [] e.op = "base" -> [st |-> [t EXCEPT !.q = Append(@, e.q), !.ref = Append(@, e.v)], bad |-> {}]
    [] e.op = "plain" ->
        [st |-> t, bad |-> IF \A a \in 1..Len(t.q) : t.q[a] # e.q THEN {"unknown_question"}
                           ELSE C("the_original_scale_ignores_transformations", RSame(e.v, t.ref[Find(t, e.q)], Small, Small))]
    [] e.op = "distance" ->
        [st |-> t, bad |-> C("distances_unchanged",
                             \A i \in 1..Len(e.theta), j \in 1..Len(e.theta) :
                               LET d(x) == LET u == VecSub(x[i], x[j]) IN RDot(u, u) IN RClose(d(e.theta), d(e.out), "1/1000", "1/10000"))
                \cup C("other_variables_untouched", \A v \in 1..Len(e.acts) : e.acts[v] \/ \A i \in 1..Len(e.theta) : REq(e.theta[i][v], e.out[i][v]))
                \cup C("chosen_variables_mirrored", e.kind # "reverse" \/ \A v \in 1..Len(e.acts) : ~e.acts[v] \/ \A i \in 1..Len(e.theta) : REq(e.theta[i][v], RNeg(e.out[i][v])))]
    [] e.op = "derivative" ->   \* lo[i][v], hi[i][v]: the scale at theta_i -/+ h e_v
        [st |-> t, bad |-> C("reports_its_own_derivative",
                             \A i \in 1..Len(e.J) : \A v \in 1..Len(e.J[i]) : \A r \in 1..Len(e.J[i]) :
                               RClose(RDiv(RSub(e.hi[i][v][r], e.lo[i][v][r]), RMul(2, e.h)), e.J[i][r][v], e.tol, e.tol))]
    [] e.op = "rotated" ->      \* L: loadings given or computed, R: the rotated ones, M: the identity on the rotated scale; L theta = R theta'
        LET LM == RForce([i \in 1..Len(e.R) |-> [v \in 1..Len(e.M) |-> RSum([u \in 1..Len(e.M) |-> RMul(e.R[i][u], e.M[v][u])])]])
        IN [st |-> t, bad |-> C("items_load_on_the_rotated_variables_as_said", RSame(e.L, LM, "1/2000", "1/1000"))
                \cup C("loadings_on_the_rotated_scale", e.after = <<>> \/ RSame(e.after, e.R, "1/2000", "1/1000"))
                \cup C("rotation_simplifies", ~e.simple \/ RLe(RSub(Varimax(e.L), "1/1000"), Varimax(e.R)))]
    [] e.op = "increase" ->     \* one-to-one: strictly monotone along a sorted grid
        [st |-> t, bad |-> C("one_to_one", \A i \in 1..(Len(e.out) - 1) : \A v \in 1..Len(e.sign) :
                               CASE e.sign[v] = 1 -> RLt(e.out[i][v], e.out[i + 1][v])
                                 [] e.sign[v] = -1 -> RLt(e.out[i + 1][v], e.out[i][v])
                                 [] OTHER -> TRUE)
                \cup C("transforming_back_returns_the_scores", e.back = <<>> \/ RSame(e.back, e.theta, e.backtol, e.backtol))]
    [] e.op = "link" ->         \* common items' curves of one model against the linked curves of the other
        [st |-> t, bad |-> C("harness_models_agree", RSame(e.P, e.Qtrue, "1/10000", "1/10000"))
                \cup C("linking_brings_common_items_together", LET d == KL(e.P, e.Q1) IN RLt(d, "1/100") \/ RLt(d, RMul("1/2", KL(e.P, e.Q0))))
                \cup C("one_to_one", \A i \in 1..(Len(e.out) - 1) : RLt(RMul(e.sign, e.out[i][1]), RMul(e.sign, e.out[i + 1][1])))]
    [] OTHER -> [st |-> t, bad |-> {"unknown_event"}]
TraceInit == l = 1 /\ st = S0
TraceNext == /\ l <= Len(Trace)
             /\ LET e == Trace[l]
                    r == Step(IF e.first THEN S0 ELSE st, e)
                IN /\ st' = r.st
                   /\ l' = l + 1
                   /\ (r.bad = {} \/ PrintT(<<"FAIL", l, e.op, r.bad>>))
TraceSpec == TraceInit /\ [][TraceNext]_<<l, st>>
TraceAccepted ==
  /\ PrintT(<<"ACCEPTED", TLCGet("stats").diameter - 1>>)
  /\ \A o \in {Trace[i].op : i \in 1..Len(Trace)} : PrintT(<<"STAT", o, Cardinality({i \in 1..Len(Trace) : Trace[i].op = o})>>)
=============================================================================
