---------------------------- MODULE ModulesTrace ----------------------------
(* Recorded outputs of the library's building blocks checked against Modules.  *)
(* The state is the module under test: its kind and parameters.                *)
EXTENDS Modules, TraceBase
S0 == <<>>
Rows(m) == 1..Len(m)
\* splines with one parameter set per variable
OfVariable(e, v) == [w |-> e.w[v], h |-> e.h[v], d |-> e.d[v], li |-> e.li, ui |-> e.ui, lo |-> e.lo, uo |-> e.uo, mw |-> e.mw, mh |-> e.mh, md |-> e.md, slope |-> e.slope]
Set(e) == CASE e.op = "spline" -> LET s == RForce([v \in 1..Len(e.w) |-> OfVariable(e, v)]) IN [kind |-> "spline", s |-> s, c |-> RForce([v \in 1..Len(s) |-> Curve(s[v])])]
            [] e.op = "poly" -> LET p == [omega |-> e.omega, alpha |-> e.alpha, tau |-> e.tau, rel |-> e.rel, dir |-> e.dir, intercept |-> e.intercept] IN [kind |-> "poly", p |-> p, coef |-> Coefs(p)]
            [] e.op = "linear" -> [kind |-> "linear", l |-> [ins |-> e.ins, outs |-> e.outs, zero_in |-> {e.zero_in[k] : k \in DOMAIN e.zero_in}, zero_out |-> {e.zero_out[k] : k \in DOMAIN e.zero_out}, groups_in |-> e.groups_in, groups_out |-> e.groups_out],
                                   w |-> e.w, b |-> e.b]
LinRow(t, row) == [o \in 1..t.l.outs |-> RAdd(t.b[o], RSum([i \in 1..t.l.ins |-> RMul(t.w[o][i], row[i])]))]
SplineTol(s) == RMul("1/10000", RAdd(RSub(s.uo, s.lo), RAdd(RAbs(s.lo), RAbs(s.uo))))
Judge(t, e) ==
  CASE e.op = "spline" -> {}
    [] e.op = "poly" -> {}
    [] e.op = "linear" ->
         LET wiring == Set(e).l IN
         C("weights_of_wired_pairs_only", \A o \in 1..e.outs : \A i \in 1..e.ins : Wired(wiring, i, o) \/ REq(e.w[o][i], 0)) \cup
         C("positive_weights", e.plain \/ \A o \in 1..e.outs : \A i \in 1..e.ins : ~Wired(wiring, i, o) \/ RLt(0, e.w[o][i])) \cup
         C("every_wired_pair_has_a_weight", \A o \in 1..e.outs : \A i \in 1..e.ins : ~Wired(wiring, i, o) \/ ~REq(e.w[o][i], 0)) \cup
         C("no_output_where_none_is_wanted", \A o \in wiring.zero_out : REq(e.b[o], 0))
    [] e.op = "outputs" /\ t.kind = "linear" ->
         C("linear", Len(e.out) = Len(e.x) /\ \A r \in Rows(e.x) : RSeqClose(e.out[r], RForce(LinRow(t, e.x[r])), "1/10000", "1/10000"))
    [] e.op = "outputs" /\ t.kind = "poly" ->
         C("monotone_polynomial", Len(e.out) = Len(e.x) /\ \A r \in Rows(e.x) : \A o \in 1..Len(e.out[r]) : RClose(e.out[r][o], PolyOut(t.p, t.coef, e.x[r], o), "1/5000", "1/2000"))
    [] e.op = "coefficients" ->
         LET K == Len(t.p.alpha)
             f == IF K <= 1 THEN 1 ELSE IF K = 2 THEN 2 ELSE 6
             want == RForce([n \in 1..(2 * K + 1) |-> [i \in Rows(t.coef) |-> [o \in Rows(t.coef[1]) |-> t.coef[i][o][n]]]])
             undivided == RForce([n \in 1..(2 * K + 1) |-> [i \in Rows(t.coef) |-> [o \in Rows(t.coef[1]) |-> RDiv(RMul(n, t.coef[i][o][n]), f)]]])
         IN (IF RSame(e.out, want, "1/10000", "1/2000") THEN {} ELSE IF RSame(e.out, undivided, "1/10000", "1/2000") THEN {"coefficients_of_the_polynomial"} ELSE {"coefficients_of_this_module"})
            \cup C("intercept", RSame(e.intercept, t.p.intercept, "1/10000", "1/10000"))
    [] e.op = "forward" ->
         C("rational_quadratic_spline", \A r \in Rows(e.x) : \A v \in 1..Len(e.x[r]) :
             LET s == t.s[v] IN RClose(e.out[r][v], Forward(s, t.c[v], e.x[r][v]), RMul(SplineTol(s), RAdd(1, SlopeAt(s, t.c[v], e.x[r][v]))), "1/5000")) \cup
         C("log_of_the_derivative", \A r \in Rows(e.x) : \A v \in 1..Len(e.x[r]) :
             RClose(e.log[r][v], RLn(SlopeAt(t.s[v], t.c[v], e.x[r][v])), "1/100", "1/200"))
    [] e.op = "drawn" ->      \* the picture of a spline: its line over the whole input range, its knots on the line
         LET s == t.s[e.v]
             On(x, y) == RClose(y, Forward(s, t.c[e.v], x), RMul(SplineTol(s), RAdd(1, SlopeAt(s, t.c[e.v], x))), "1/1000")
             K == Len(e.kx)
             Part(a, b, k, n) == RAdd(a, RDiv(RMul(k, RSub(b, a)), n))
         IN C("line_of_the_spline", Len(e.x) = e.points /\ Len(e.y) = e.points /\ \A i \in 1..e.points : RClose(e.x[i], Part(s.li, s.ui, i - 1, e.points - 1), "1/100000", "1/100000") /\ On(e.x[i], e.y[i])) \cup
            C("knots_of_the_spline", K = Len(s.w) + 1 /\ Len(e.ky) = K /\ RClose(e.kx[1], s.li, "1/10000", "1/10000") /\ RClose(e.kx[K], s.ui, "1/10000", "1/10000")
                /\ (\A i \in 1..(K - 1) : RLt(e.kx[i], e.kx[i + 1])) /\ \A i \in 1..K : On(e.kx[i], e.ky[i]))
    [] e.op = "inverse" ->
         C("inverse_of_the_spline", \A r \in Rows(e.y) : \A v \in 1..Len(e.y[r]) :
             LET s == t.s[v] IN \/ RClose(Forward(s, t.c[v], e.out[r][v]), e.y[r][v], RMul(SplineTol(s), RAdd(1, SlopeAt(s, t.c[v], e.out[r][v]))), "1/2000")
                                \/ RClose(e.out[r][v], Backward(s, t.c[v], e.y[r][v]), "1/2000", "1/2000")) \cup
         C("log_of_the_derivative_of_the_inverse", \A r \in Rows(e.y) : \A v \in 1..Len(e.y[r]) :
             RClose(e.log[r][v], RNeg(RLn(SlopeAt(t.s[v], t.c[v], Backward(t.s[v], t.c[v], e.y[r][v])))), "1/40", "1/100"))
    [] e.op = "flow" ->
         C("log_density_by_change_of_variable", \A r \in Rows(e.x) : \A v \in 1..Len(e.x[r]) :
             LET z == RDiv(RSub(Forward(t.s[v], t.c[v], e.x[r][v]), e.mu), e.sd)
                 lp == RSub(RNeg(RDiv(RMul(z, z), 2)), RAdd(RLn(e.sd), "918938533/1000000000"))
             IN RClose(e.log[r][v], RAdd(lp, RLn(SlopeAt(t.s[v], t.c[v], e.x[r][v]))), "1/50", "1/200"))
    [] e.op = "there_and_back" ->
         C("returns", \A r \in Rows(e.x) : \A v \in 1..Len(e.x[r]) :
             LET s == t.s[v]
                 m == SlopeAt(s, t.c[v], e.x[r][v])
             IN RClose(e.out[r][v], e.x[r][v], RMul("1/2000", RAdd(RAbs(e.x[r][v]), RMul(RAdd(1, RDiv(1, m)), RAdd(RSub(s.ui, s.li), RAdd(RAbs(s.lo), RAbs(s.uo)))))), 0))
    [] e.op = "rising" ->     \* outputs at inputs in ascending order, one column per function
         C("never_decreases", \A r \in 2..Len(e.out) : \A o \in 1..Len(e.out[r]) : RLe(RSub(e.out[r - 1][o], RMul("1/100000", RAdd(1, RAbs(e.out[r][o])))), e.out[r][o])) \cup
         C("strictly_rises_overall", ~e.strict \/ \A o \in 1..Len(e.out[1]) : RLt(e.out[1][o], e.out[Len(e.out)][o]))
    [] e.op = "bounded" ->
         C("bounded_activation", \A k \in 1..Len(e.x) : RClose(e.out[k], Bounded(e.alpha, e.x[k]), "1/50000", "1/50000")) \cup
         C("its_derivative", \A k \in 1..Len(e.x) : RClose(e.grad[k], RMul(e.up[k], BoundedSlope(e.alpha, e.x[k])), "1/50000", "1/20000")) \cup
         C("finite", \A k \in 1..Len(e.x) : RIsNum(e.out[k]) /\ RIsNum(e.grad[k]))
    [] e.op = "basis" ->
         C("basis", \A r \in Rows(e.x) : RSeqClose(e.out[r], Basis(e.knots, e.degree, e.x[r]), "1/20000", "1/20000")) \cup
         C("non_negative_and_sums_to_one", \A r \in Rows(e.x) : RClose(RSum(e.out[r]), 1, "1/20000", 0) /\ \A k \in 1..Len(e.out[r]) : RLe("-1/1000000", e.out[r][k])) \cup
         C("derivative_of_the_basis", \A r \in Rows(e.x) : RClose(e.grad[r], RDot(e.up[r], BasisSlope(e.knots, e.degree, e.x[r])), "1/500", "1/500"))
    [] e.op = "negation" ->
         C("one_weight_per_related_item", \A j \in 1..Len(e.rel) : e.rel[j] = 1 \/ REq(e.w[j], 0)) \cup
         C("scaled_by_the_item_weight", \A r \in Rows(e.x) : \A k \in 1..Len(e.x[r]) :
             LET j == ((k - 1) \div e.per) + 1
             IN RClose(e.out[r][k], IF k \in {e.zero[z] : z \in DOMAIN e.zero} THEN 0 ELSE RMul(e.w[j], e.x[r][k]), "1/100000", "1/100000"))
Step(t, e) == IF Raised(e) THEN [st |-> t, bad |-> {"computed"}]
              ELSE [st |-> IF e.op \in {"spline", "poly", "linear"} THEN Set(e) ELSE t, bad |-> Judge(t, e)]
TraceInit == l = 1 /\ st = S0
TraceNext == /\ l <= Len(Trace)
             /\ LET e == Trace[l]
                    r == Step(IF e.first THEN S0 ELSE st, e)
                IN /\ st' = r.st
                   /\ l' = l + 1
                   /\ (r.bad = {} \/ PrintT(<<"FAIL", l, e.op, r.bad>>))
TraceSpec == TraceInit /\ [][TraceNext]_<<l, st>>
TraceAccepted ==
  /\ PrintT(<<"ACCEPTED", TLCGet("stats").diameter - 1>>)
  /\ \A o \in {Trace[i].op : i \in 1..Len(Trace)} : PrintT(<<"STAT", o, Cardinality({i \in 1..Len(Trace) : Trace[i].op = o})>>)
=============================================================================
