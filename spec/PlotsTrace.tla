----------------------------- MODULE PlotsTrace -----------------------------
(* What was actually drawn (the data of the returned figures) checked against *)
(* Plots.tla.  State: the model, its scales and its training scores.          *)
EXTENDS Plots, TraceBase
S0 == <<>>
Tol(e) == CASE e.what = "information" -> "1/500" [] e.what = "derivative" -> "1/2000" [] OTHER -> "1/5000"
Opt(t, e) == [all |-> [v \in 1..t.m.lv |-> v], vars |-> e.vars, ranges |-> e.ranges, steps |-> e.steps, fixed |-> e.fixed, rescale |-> e.rescale]
\* the coordinates of the grid points on the axes
Axis(t, e, o, grid, k) ==
  IF e.against = "score" THEN RForce([i \in 1..Len(grid) |-> RDbl(ExpectedOf(t.m, e.allitems, grid[i]))])
  ELSE LET x == Reported(o, t.ss, grid) IN RForce([i \in 1..Len(grid) |-> x[i][e.vars[k]]])
Close(x, y) == RClose(x, y, "1/5000", "1/5000")
OnCurve(t, e, o, theta, i) == LET y == Series(t.m, e, o, t.ss, theta) IN Len(y) = Len(e.series) /\ \A c \in 1..Len(y) : RClose(e.series[c][i], y[c], Tol(e), Tol(e))
Curve(t, e) ==
  LET o == Opt(t, e)
      g == LatentGrid(o, t.ss, t.train)
      x == Axis(t, e, o, g, 1)
      d == Drawn(x)
      smooth == d # <<>>
      n == Len(e.x)
  IN C("one_curve_per_quantity", Len(e.series) = Len(Series(t.m, e, o, t.ss, g[1])) /\ \A c \in 1..Len(e.series) : Len(e.series[c]) = n) \cup
     (IF smooth
      THEN C("every_grid_point_is_drawn", n = Len(d)) \cup
           C("against_the_reported_scale", n # Len(d) \/ \A i \in 1..n : Close(e.x[i], x[d[i]])) \cup
           C("the_models_numbers", n # Len(d) \/ \A i \in 1..n : OnCurve(t, e, o, g[d[i]], i))
      ELSE C("drawn_points_are_on_the_curve", \A i \in 1..n : \E q \in 1..Len(g) : Close(e.x[i], x[q]) /\ OnCurve(t, e, o, g[q], i))) \cup
     C("named_by_category", e.what \notin {"probabilities", "derivative"} \/ e.names = [c \in 1..Len(e.series) |-> IF t.m.key = <<>> THEN e.scorenames[c] ELSE e.optionnames[c]])
\* surfaces: the matrices hold the grid in some order; every grid point must be there once, with its own height
Cells(m) == FoldLeft(LAMBDA a, r : a \o r, <<>>, m)
Surface(t, e) ==
  LET o == Opt(t, e)
      g == LatentGrid(o, t.ss, t.train)
      x == Axis(t, e, o, g, 1)
      y == Axis(t, e, o, g, 2)
      dx == RForce(Cells(e.x))
      dy == RForce(Cells(e.y))
      dz == RForce([c \in 1..Len(e.z) |-> Cells(e.z[c])])
      heights == RForce([i \in 1..Len(g) |-> Series(t.m, e, o, t.ss, g[i])])
      square == Len(e.x) = e.steps /\ \A i \in 1..Len(e.x) : Len(e.x[i]) = e.steps
      Same(i, q) == Close(dx[i], x[q]) /\ Close(dy[i], y[q]) /\ \A c \in 1..Len(dz) : RClose(dz[c][i], heights[q][c], Tol(e), Tol(e))
  IN C("one_surface_per_quantity", Len(dz) = Len(heights[1]) /\ \A c \in 1..Len(dz) : Len(dz[c]) = Len(dx) /\ Len(dy) = Len(dx)) \cup
     C("one_cell_per_grid_point", square /\ Len(dx) = Len(g)) \cup
     C("the_models_surface", Len(dz) # Len(heights[1]) \/ Len(dx) # Len(g) \/ \A q \in 1..Len(g) : (Same(q, q) \/ \E i \in 1..Len(dx) : Same(i, q)))
\* a range is one of the reported scores wherever those can be undone, of the latent scores otherwise
Least(s) == FoldLeft(LAMBDA a, v : RMin2(a, v), s[1], s)
Most(s) == FoldLeft(LAMBDA a, v : RMax2(a, v), s[1], s)
Declared(t, e) ==
  LET o == Opt(t, e)
      drawn(k) == IF e.op = "curve" THEN e.x ELSE Cells(IF k = 1 THEN e.x ELSE e.y)
      judged == e.against # "score" /\ (~e.rescale \/ t.ss = <<>> \/ Stack(t.ss, t.m.lv).inv)
  IN C("drawn_over_the_declared_range", ~judged \/ \A k \in DOMAIN e.ranges : e.ranges[k] = <<>> \/
        LET s == drawn(k) IN Close(Least(s), e.ranges[k][1]) /\ Close(Most(s), e.ranges[k][2]))
\* relationships: mean slope of each item's expected score (as a share of the best score when there is no key), on the reported scale
Relations(t, e) ==
  IF e.given THEN e.matrix
  ELSE LET o == [all |-> [v \in 1..t.m.lv |-> v], rescale |-> TRUE]
           dx == Dx(o, t.ss)
           th == IF e.theta = <<>> THEN t.train ELSE e.theta
           One1(j, v, theta) == LET p == Dist(t.m, j, theta)
                                    g == Grad(t.m, j, p)
                                    pts == Points(t.m, j)
                                IN RDiv(RSum([k \in 1..Len(p) |-> RMul(pts[k], RSum([u \in 1..t.m.lv |-> RMul(dx[v][u], g[k][u])]))]), IF t.m.key = <<>> THEN Len(p) - 1 ELSE 1)
       IN RForce([j \in 1..Len(t.m.D) |-> [v \in 1..t.m.lv |-> RDiv(RSum([r \in 1..Len(th) |-> RDbl(One1(j, v, th[r]))]), Len(th))]])
Judge(t, e) ==
  CASE e.op = "curve" -> Curve(t, e) \cup Declared(t, e) \cup
         C("line_at_the_observed_score", e.against # "score" \/ REq(e.line, RSum([j \in 1..Len(e.data) |-> IF e.data[j] = -1 THEN 0 ELSE Points(t.m, j)[e.data[j] + 1]])))
    [] e.op = "surface" -> Surface(t, e) \cup Declared(t, e)
    [] e.op = "relationships" -> LET want == Relations(t, e) IN C("slopes_by_item_and_variable", Len(e.z) = Len(want) /\ RSame(e.z, want, "1/2000", "1/2000"))
         \cup C("one_row_per_item_in_order", e.rows = e.itemnames)
    [] e.op = "scale_curves" ->
         LET o == [all |-> [v \in 1..t.m.lv |-> v], vars |-> <<e.var>>, ranges |-> <<e.range>>, steps |-> e.steps, fixed |-> e.fixed, rescale |-> FALSE]
             g == LatentGrid(o, t.ss, t.train)
             s == Stack(t.ss, t.m.lv)
         IN C("one_curve_per_variable", Len(e.series) = t.m.lv) \cup
            C("against_the_original_scale", \A c \in 1..Len(e.x) : Len(e.x[c]) = e.steps /\ \A i \in 1..e.steps : Close(e.x[c][i], g[i][e.var])) \cup
            C("the_transformed_scores", \A c \in 1..Len(e.series) : Len(e.series[c]) = e.steps /\ \A i \in 1..e.steps : Close(e.series[c][i], Apply(s, g[i])[c]))
    [] e.op = "density" ->
         LET k == IF e.bins = 0 THEN Bins(Len(e.rows)) ELSE e.bins
         IN C("binned_density", Len(e.z) = k /\ RSame(e.z, Density2(e.rows, k), "1/2000", "1/1000")) \cup
            C("at_the_bin_centers", RSeqClose(e.x, Centers(Edges(Column(e.rows, 1), k)), "1/2000", "1/2000") /\ RSeqClose(e.y, Centers(Edges(Column(e.rows, 2), k)), "1/2000", "1/2000"))
    [] e.op = "values" -> C("the_scores_themselves", \A c \in 1..Len(e.drawn) : RSeqClose(e.drawn[c], [r \in 1..Len(e.rows) |-> e.rows[r][e.var]], "1/100000", "1/100000")) \cup C("drawn", Len(e.drawn) > 0)
    [] e.op = "history" ->
         C("every_loss_in_order", e.names = e.wantnames /\ Len(e.y) = Len(e.want) /\ \A c \in 1..Len(e.want) :
             RSeqClose(e.y[c], e.want[c], "1/1000000", "1/1000000") /\ e.x[c] = [i \in 1..Len(e.want[c]) |-> i])
    [] e.op = "group_fit" ->
         C("group_points_per_category", Len(e.data) = Len(e.wantdata) /\ RSame(e.data, e.wantdata, "1/100000", "1/100000") /\ RSame(e.model, e.wantmodel, "1/100000", "1/100000")) \cup
         C("at_the_group_means", \A c \in 1..Len(e.at) : RSeqClose(e.at[c], e.wantat, "1/100000", "1/100000"))
Setup(e) == [m |-> [lv |-> e.lv, key |-> e.key, W |-> e.W, D |-> e.D], ss |-> e.ss, train |-> e.train]
Step(t, e) == IF Raised(e) THEN [st |-> t, bad |-> {"drawn_at_all"}]
              ELSE IF e.op = "model" THEN [st |-> Setup(e), bad |-> {}]
              ELSE [st |-> t, bad |-> Judge(t, e)]
TraceInit == l = 1 /\ st = S0
TraceNext == /\ l <= Len(Trace)
             /\ LET e == Trace[l]
                    r == Step(IF e.first THEN S0 ELSE st, e)
                IN /\ st' = r.st
                   /\ l' = l + 1
                   /\ (r.bad = {} \/ PrintT(<<"FAIL", l, e.op, r.bad>>))
TraceSpec == TraceInit /\ [][TraceNext]_<<l, st>>
TraceAccepted ==
  /\ PrintT(<<"ACCEPTED", TLCGet("stats").diameter - 1>>)
  /\ \A o \in {Trace[i].op : i \in 1..Len(Trace)} : PrintT(<<"STAT", o, Cardinality({i \in 1..Len(Trace) : Trace[i].op = o})>>)
=============================================================================
