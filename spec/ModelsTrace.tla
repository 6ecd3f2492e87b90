---------------------------- MODULE ModelsTrace ----------------------------
(* Recorded answers of real model objects checked against Models.            *)
EXTENDS Models, TraceBase
S0 == <<>>
PT == "1/100000"        \* single precision probabilities

Bases(e, theta) == RForce([v \in 1..Len(theta) |-> Basis(e.kn, e.degree, Sigmoid(theta[v]))])
ItemProb(e, j, theta, bases) ==
  LET q == e.par[j]
      M == e.cats[j]
  IN CASE e.family = "1pl" -> OnePL(q.d, theta)
       [] e.family = "2pl" -> TwoPL(q.a, q.d, theta)
       [] e.family = "3pl" -> ThreePL(q.a, q.d, q.c, theta)
       [] e.family = "gpc" -> GPC(q.a, q.d, M, theta)
       [] e.family = "gr" -> Graded(q.a, q.d, M, theta)
       [] e.family = "nom" -> Nominal(q.a, q.d, M, theta)
       [] e.family = "poly_items" ->
            LET s == RSum([v \in 1..Len(theta) |-> RMul(q.dir[v], MonoPoly(q.omega[v], q.alpha[v], q.tau[v], theta[v]))])
            IN CategoryCum([k \in 1..M |-> s], q.d, M)
       [] e.family = "poly_categories" ->
            CategoryCum([k \in 1..M |-> RSum([v \in 1..Len(theta) |-> RMul(q.dir[v], MonoPoly(q.omega[k][v], q.alpha[k][v], q.tau[k][v], theta[v]))])], q.d, M)
       [] e.family = "spline_items" -> SplineItems(q.raw, q.d, M, bases)
       [] e.family = "spline_categories" -> SplineCategories(q.raw, q.d, M, bases)
       [] e.family = "surprisal" ->
            StickBreak(RForce([m \in 1..(M - 1) |-> RSum([v \in 1..Len(theta) |-> IF q.rel[v] THEN MonoSpline(q.raw[m][v], bases[v]) ELSE 0])]), M)
       [] e.family = "law" -> <<>>

Big(p) == RLt("1/2000", p)
Formula(e) ==
  LET N == Len(e.theta)
      J == Len(e.cats)
      okShape == Len(e.probs) = N /\ \A i \in 1..N : Len(e.probs[i]) = J /\ \A j \in 1..J : Len(e.probs[i][j]) = e.max
      ok == okShape /\ e.max = (CHOOSE m \in {e.cats[j] : j \in 1..J} : \A j \in 1..J : e.cats[j] <= m)
  IN C("shape", ok) \cup
     (IF ~ok THEN {} ELSE
       C("a_probability_distribution", \A i \in 1..N : \A j \in 1..J : IsDistribution(e.probs[i][j], PT))
       \cup C("own_categories_only", \A i \in 1..N : \A j \in 1..J : OwnCategoriesOnly(e.probs[i][j], e.cats[j]))
       \cup C("published_formula", e.family = "law" \/ \A i \in 1..N :
               LET bases == IF "kn" \in DOMAIN e THEN Bases(e, e.theta[i]) ELSE <<>>
               IN \A j \in 1..J : RSeqClose(SubSeq(e.probs[i][j], 1, e.cats[j]), ItemProb(e, j, e.theta[i], bases), PT, 0))
       \cup C("log_likelihood_is_log_probability", \A x \in 1..Len(e.ll) : \A i \in 1..N : \A j \in 1..J :
               LET k == IF x <= e.cats[j] THEN x ELSE e.cats[j]
                   p == e.probs[i][j][k]
               IN Big(p) => RClose(e.ll[x][i][j], RLn(p), "1/1000", 0))
       \cup C("missing_excluded_from_log_likelihood", \A i \in 1..N : \A j \in 1..J :
               IF REq(e.x[i][j], -1) THEN RIsNaN(e.xll[i][j]) ELSE
                 LET p == e.probs[i][j][RToInt(e.x[i][j]) + 1] IN Big(p) => RClose(e.xll[i][j], RLn(p), "1/1000", 0))
       \cup C("total_log_likelihood", LET seen == {<<i, j>> \in (1..N) \X (1..J) : ~REq(e.x[i][j], -1)} IN
               (\A s \in seen : Big(e.probs[s[1]][s[2]][RToInt(e.x[s[1]][s[2]]) + 1])) =>
                  RClose(e.xsum, RSum([i \in 1..N |-> RSum([j \in 1..J |-> IF <<i, j>> \in seen THEN RLn(e.probs[i][j][RToInt(e.x[i][j]) + 1]) ELSE 0])]), "1/100", "1/10000"))
       \cup C("irt_parameterization", e.irt = <<>> \/ \A j \in 1..J :
               RClose(e.irt[j].a, e.par[j].a[1], "1/1000000", "1/100000") /\
               Len(e.irt[j].b) = e.cats[j] - 1 /\
               \A k \in 1..Len(e.irt[j].b) : RClose(RMul(e.irt[j].b[k], e.par[j].a[1]), RNeg(IF e.family = "gpc" THEN e.par[j].d[k + 1] ELSE IF e.family = "gr" THEN e.par[j].d[k] ELSE e.par[j].d), "1/10000", "1/10000"))
       \cup C("identification", e.family # "nom" \/ \A j \in 1..J :
               SumToZero(e.par[j].d) /\ \A v \in 1..e.lv : SumToZero([k \in 1..e.cats[j] |-> e.par[j].a[k][v]])))

\* ---- shape laws of the monotone models, from probabilities along one latent variable
LO(p, k, b) == RSub(RLn(p[k + 1]), RLn(p[b + 1]))
Enough(p, k, b) == RLt("1/5000", p[k + 1]) /\ RLt("1/5000", p[b + 1])
Curves(e) ==
  LET G == Len(e.grid)
      J == Len(e.cats)
      pairs(j) == IF e.key # <<>> THEN {<<e.key[j], b>> : b \in (0..(e.cats[j] - 1)) \ {e.key[j]}}
                  ELSE {<<k, k - 1>> : k \in 1..(e.cats[j] - 1)}
      P(o, g, j) == e.probs[o][g][j]
  IN C("monotone_in_latent_variable", \A o \in 1..Len(e.probs) : \A j \in 1..J : \A pr \in pairs(j) : \A g \in 1..(G - 1) :
         LET p == P(o, g, j)
             q == P(o, g + 1, j)
         IN (Enough(p, pr[1], pr[2]) /\ Enough(q, pr[1], pr[2])) =>
              LET diff == RSub(LO(q, pr[1], pr[2]), LO(p, pr[1], pr[2]))
              IN RLe("-1/500", RMul(e.dirs[j], diff)) /\ (e.dirs[j] = "0" => RClose(diff, 0, "1/500", 0)))
     \cup C("effects_of_latent_variables_add", Len(e.probs) < 2 \/ \A j \in 1..J : \A pr \in pairs(j) : \A g \in 1..(G - 1) :
         LET ok == \A o \in 1..2 : \A h \in {g, g + 1} : Enough(P(o, h, j), pr[1], pr[2])
             D(o) == RSub(LO(P(o, g + 1, j), pr[1], pr[2]), LO(P(o, g, j), pr[1], pr[2]))
         IN ok => RClose(D(1), D(2), "1/250", 0))
     \cup C("item_does_not_depend_on_width_of_others", e.wider = <<>> \/ \A g \in 1..G : \A j \in 1..(J - 1) : \A k \in 1..e.cats[j] :
         RClose(e.wider[g][j][k], P(1, g, j)[k], "1/50000", 0))
     \cup C("wrong_options_share_one_function", e.separate # "items" \/ e.key = <<>> \/ \A j \in 1..J : \A g \in 1..(G - 1) :
         LET wrong == (0..(e.cats[j] - 1)) \ {e.key[j]}
         IN \A k, m \in wrong : (\A h \in {g, g + 1} : Enough(P(1, h, j), k, m)) => RClose(LO(P(1, g, j), k, m), LO(P(1, g + 1, j), k, m), "1/250", 0))
     \cup C("one_function_per_item", e.separate # "items" \/ e.key # <<>> \/ \A j \in 1..J : \A g \in 1..(G - 1) : \A k \in 2..(e.cats[j] - 1) :
         LET D(m) == RSub(LO(P(1, g + 1, j), m, m - 1), LO(P(1, g, j), m, m - 1))
             ok == \A m \in {k, 1} : \A h \in {g, g + 1} : Enough(P(1, h, j), m, m - 1)
         IN ok => RClose(D(k), D(1), "1/250", 0))

\* ---- item - latent relationships
MaxDiff(p, q) == FoldLeft(LAMBDA m, k : RMax2(m, RAbs(RSub(p[k], q[k]))), 0, [k \in 1..Len(p) |-> k])
Depend(e) ==
  LET J == Len(e.rel)
      V == Len(e.rel[1])
      N == Len(e.base)
  IN C("undeclared_latent_variable_has_no_effect", \A v \in 1..V : \A j \in 1..J : e.rel[j][v] \/
          \A i \in 1..N : RLe(MaxDiff(e.base[i][j], e.alt[v][i][j]), "1/10000000"))
     \cup C("declared_latent_variable_has_effect", \A v \in 1..V : \A j \in 1..J : ~e.rel[j][v] \/
          \E i \in 1..N : RLt("1/1000000", MaxDiff(e.base[i][j], e.alt[v][i][j])))
     \cup C("zero_parameters_for_undeclared", e.weights = <<>> \/ \A v \in 1..V : \A j \in 1..J :
          IF e.rel[j][v] THEN RLt(0, e.weights[j][v]) ELSE REq(e.weights[j][v], 0))
     \cup C("reported_directions", e.dirs = <<>> \/ \A v \in 1..V : \A j \in 1..J :
          IF e.rel[j][v] THEN ~REq(e.dirs[j][v], 0) ELSE REq(e.dirs[j][v], 0))
     \cup C("direction_sign", e.dirs = <<>> \/ ~e.signed \/ \A v \in 1..V : \A j \in 1..J : ~e.rel[j][v] \/
          \A i \in 1..N : LET x == RSub(Expected(e.alt[v][i][j]), Expected(e.base[i][j]))
                          IN RLt("1/10000", RAbs(x)) => RLt(0, RMul(RMul(x, e.step), e.dirs[j][v])))

\* directions of a model that has no relationship parameters: the signs of the coefficients of the regression of the items' expected
\* scores on the latent variables over the population given (one or two latent variables: closed form, denominators are positive)
Centred(s) == LET m == RDiv(RSum(s), Len(s)) IN RForce([i \in 1..Len(s) |-> RSub(s[i], m)])
Directions(e) ==
  LET N == Len(e.theta)
      V == Len(e.theta[1])
      J == Len(e.probs[1])
      x == RForce([v \in 1..V |-> Centred([i \in 1..N |-> e.theta[i][v]])])
      score(i, j) == IF e.key # <<>> THEN e.probs[i][j][e.key[j] + 1] ELSE Expected(e.probs[i][j])
      y == RForce([j \in 1..J |-> Centred([i \in 1..N |-> score(i, j)])])
      S(a, b) == RDot(a, b)
      det == IF V = 1 THEN S(x[1], x[1]) ELSE RSub(RMul(S(x[1], x[1]), S(x[2], x[2])), RMul(S(x[1], x[2]), S(x[1], x[2])))
      coef(v, j) == IF V = 1 THEN RDiv(S(x[1], y[j]), det)
                    ELSE RDiv(RSub(RMul(S(x[v], y[j]), S(x[3 - v], x[3 - v])), RMul(S(x[3 - v], y[j]), S(x[1], x[2]))), det)
  IN C("direction_of_the_population_regression", V > 2 \/ ~RLt("1/100", det) \/ \A j \in 1..J : \A v \in 1..V :
         LET c == coef(v, j) IN RLt("1/1000", RAbs(c)) => RLt(0, RMul(c, e.dirs[j][v])))

\* ---- mixtures
RECURSIVE Offset(_, _)
Offset(parts, i) == IF i = 1 THEN 0 ELSE Offset(parts, i - 1) + Len(parts[i - 1].cats)
Mix(e) ==
  LET P == Len(e.parts)
      N == Len(e.probs)
      J == Offset(e.parts, P) + Len(e.parts[P].cats)
      all == {<<p, j>> \in (1..P) \X (1..J) : j <= Len(e.parts[p].cats)}
      ok == \A i \in 1..N : Len(e.probs[i]) = J
  IN C("shape", ok /\ Len(e.cats) = J) \cup (IF ~ok THEN {} ELSE
     C("item_categories", \A a \in all : e.cats[Offset(e.parts, a[1]) + a[2]] = e.parts[a[1]].cats[a[2]])
     \cup C("probabilities_of_the_parts", \A a \in all : \A i \in 1..N :
          LET mine == e.parts[a[1]].probs[i][a[2]]
              got == e.probs[i][Offset(e.parts, a[1]) + a[2]]
          IN RSeqClose(SubSeq(got, 1, Len(mine)), mine, "1/1000000", 0) /\ OwnCategoriesOnly(got, e.parts[a[1]].cats[a[2]]))
     \cup C("expected_scores_of_the_parts", \A a \in all : \A i \in 1..N :
          RClose(e.expected[i][Offset(e.parts, a[1]) + a[2]], Expected(e.parts[a[1]].probs[i][a[2]]), "1/10000", 0))
     \cup C("total_log_likelihood", \A i \in 1..N : RClose(e.sums[i], RSum([p \in 1..P |-> e.parts[p].sums[i]]), "1/10000", "1/100000")
                                   /\ RClose(e.sum, RSum([k \in 1..N |-> e.sums[k]]), "1/1000", "1/100000"))
     \cup C("total_is_log_probability_of_responses", \A i \in 1..N : RClose(e.sums[i],
             RSum([j \in 1..J |-> IF REq(e.x[i][j], -1) THEN 0 ELSE RLn(e.probs[i][j][RToInt(e.x[i][j]) + 1])]), "1/1000", "1/10000"))
     \cup C("samples_are_own_categories", \A i \in 1..Len(e.sample) : \A j \in 1..J :
             LET s == e.sample[i][j] IN RIsInt(s) /\ RLe(0, s) /\ RLt(s, e.cats[j]))
     \cup C("gradients_of_the_parts", \A a \in all : \A i \in 1..N :
          LET mine == e.parts[a[1]].grads[i][a[2]]
              got == e.grads[i][Offset(e.parts, a[1]) + a[2]]
          IN \A k \in 1..Len(mine) : RSeqClose(got[k], mine[k], "1/100000", "1/10000")))
\* per-item log-likelihood of a mixture, row by row
MixRows(e) ==
  LET N == Len(e.x)
      J == Len(e.x[1])
  IN C("per_item_log_likelihood_in_place", \A i \in 1..N : \A j \in 1..J :
       IF REq(e.x[i][j], -1) THEN RIsNaN(e.ll[i][j]) ELSE RClose(e.ll[i][j], RLn(e.probs[i][j][RToInt(e.x[i][j]) + 1]), "1/1000", 0))
     \cup C("per_item_log_likelihood_values", RClose(RSum([i \in 1..N |-> RSum([j \in 1..J |-> IF RIsNaN(e.ll[i][j]) THEN 0 ELSE e.ll[i][j]])]),
            RSum([i \in 1..N |-> RSum([j \in 1..J |-> IF REq(e.x[i][j], -1) THEN 0 ELSE RLn(e.probs[i][j][RToInt(e.x[i][j]) + 1])])]), "1/1000", "1/10000"))

\* ---- a model built from data: an item has one category more than its largest observed response
InitFromData(e) ==
  C("categories_found_in_data", Len(e.cats) = Len(e.x[1]) /\ \A j \in 1..Len(e.cats) :
     \A i \in 1..Len(e.x) : RLt(e.x[i][j], e.cats[j]))
  \cup C("no_unobserved_top_category", \A j \in 1..Len(e.cats) : \E i \in 1..Len(e.x) : REq(e.x[i][j], e.cats[j] - 1))
  \cup C("probabilities_match_categories", \A j \in 1..Len(e.cats) : IsDistribution(e.probs[j], PT) /\ OwnCategoriesOnly(e.probs[j], e.cats[j])
         /\ \A k \in 1..e.cats[j] : RLt(0, e.probs[j][k]))

\* ---- nested logit
NestedOk(e) ==
  LET N == Len(e.theta)
      J == Len(e.cats)
      Cond(i, j, bases) == LET M == e.cats[j] - 1
                               q == e.cond[j] IN
         CASE e.distractors = "nominal" -> Nominal(q.a, q.d, M, e.theta[i])
           [] e.distractors = "bspline" -> SplineNominal(q.raw, M, bases)
           [] OTHER -> <<>>
  IN C("shape", Len(e.probs) = N /\ \A i \in 1..N : Len(e.probs[i]) = J) \cup
     C("key_has_binary_probability", \A i \in 1..N : \A j \in 1..J : RClose(e.probs[i][j][e.key[j] + 1], e.binary[i][j][2], PT, 0))
     \cup C("a_probability_distribution", \A i \in 1..N : \A j \in 1..J : IsDistribution(e.probs[i][j], PT) /\ OwnCategoriesOnly(e.probs[i][j], e.cats[j]))
     \cup C("distractors_share_the_rest", e.distractors = "unknown" \/ \A i \in 1..N :
           LET bases == IF e.distractors = "bspline" THEN Bases(e, e.theta[i]) ELSE <<>> IN
           \A j \in 1..J : RSeqClose(SubSeq(e.probs[i][j], 1, e.cats[j]), Nested(e.binary[i][j], Cond(i, j, bases), e.key[j], e.cats[j]), PT, 0))
     \cup C("log_likelihood_is_log_probability", \A i \in 1..N : \A j \in 1..J :
           IF REq(e.x[i][j], -1) THEN RIsNaN(e.xll[i][j]) ELSE
             LET p == e.probs[i][j][RToInt(e.x[i][j]) + 1] IN Big(p) => RClose(e.xll[i][j], RLn(p), "1/1000", 0))
     \cup C("expected_score_is_probability_of_key", \A i \in 1..N : \A j \in 1..J : RClose(e.expected[i][j], e.probs[i][j][e.key[j] + 1], PT, 0))
     \cup C("conditional_is_free_of_the_correct_model", \A i \in 1..N : \A j \in 1..J :
           \A k \in 1..e.cats[j] : k = e.key[j] + 1 \/
              RClose(RMul(e.probs2[i][j][k], e.binary[i][j][1]), RMul(e.probs[i][j][k], e.binary2[i][j][1]), PT, 0))

Step(t, e) ==
  [st |-> t, bad |->
    CASE Raised(e) -> {"raised"}
      [] e.op = "formula" -> Formula(e)
      [] e.op = "init" -> InitFromData(e)
      [] e.op = "curves" -> Curves(e)
      [] e.op = "depend" -> Depend(e)
      [] e.op = "directions" -> Directions(e)
      [] e.op = "mix" -> Mix(e)
      [] e.op = "mix_rows" -> MixRows(e)
      [] e.op = "nested" -> NestedOk(e)
      [] OTHER -> {"unknown_event"}]

TraceInit == l = 1 /\ st = S0
TraceNext == /\ l <= Len(Trace)
             /\ LET e == Trace[l]
                    r == Step(IF e.first THEN S0 ELSE st, e)
                IN /\ st' = r.st
                   /\ l' = l + 1
                   /\ (r.bad = {} \/ PrintT(<<"FAIL", l, e.op, r.bad>>))
TraceSpec == TraceInit /\ [][TraceNext]_<<l, st>>
TraceAccepted ==
  /\ PrintT(<<"ACCEPTED", TLCGet("stats").diameter - 1>>)
  /\ \A o \in {Trace[i].op : i \in 1..Len(Trace)} : PrintT(<<"STAT", o, Cardinality({i \in 1..Len(Trace) : Trace[i].op = o})>>)
=============================================================================
