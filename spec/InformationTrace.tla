-------------------------- MODULE InformationTrace --------------------------
(* Slopes and information recorded from the library at latent points, with   *)
(* the model's own probabilities at and around each point.                   *)
EXTENDS Information, TraceBase
S0 == [P |-> <<>>, F |-> <<>>, G |-> <<>>, I |-> <<>>, pts |-> <<>>, cats |-> <<>>]
Near(a, b, tol) == RSame(a, b, tol, tol)
\* F[i][j][k][v]: slopes of the recorded probabilities
Slopes(e) == RForce([i \in 1..Len(e.P) |-> [j \in 1..Len(e.cats) |-> [k \in 1..e.cats[j] |-> RForce([v \in 1..e.lv |->
               RDbl(Slope(e.l1[i][v][j][k], e.h1[i][v][j][k], e.l2[i][v][j][k], e.h2[i][v][j][k], e.h))])]]])
Own(m, cats) == RForce([i \in 1..Len(m) |-> RForce([j \in 1..Len(cats) |-> SubSeq(m[i][j], 1, cats[j])])])
Infos(P, G) == RForce([i \in 1..Len(P) |-> [j \in 1..Len(P[i]) |-> RForce([a \in 1..Dims(G[i][j]) |-> RForce([b \in 1..Dims(G[i][j]) |-> RDbl(ItemInfo(P[i][j], G[i][j])[a][b])])])]])
Step(t, e) ==
  CASE Raised(e) -> [st |-> t, bad |-> {"raised"}]
    [] e.op = "points" -> LET F == Slopes(e) IN [st |-> [S0 EXCEPT !.P = Own(e.P, e.cats), !.F = F, !.pts = e.pts, !.cats = e.cats], bad |-> {}]
    [] e.op = "gradients" ->
        [st |-> [t EXCEPT !.G = Own(e.G, t.cats)],
         bad |-> C("one_per_point_item_category", Len(e.G) = Len(t.P) /\ \A i \in 1..Len(e.G) : Len(e.G[i]) = Len(t.cats))
              \cup C("slopes_of_the_probabilities", Near(Own(e.G, t.cats), t.F, e.tol))
              \cup C("other_categories_flat", \A i \in 1..Len(e.G), j \in 1..Len(t.cats) : \A k \in (t.cats[j] + 1)..Len(e.G[i][j]) : \A v \in 1..Len(e.G[i][j][k]) : REq(e.G[i][j][k][v], 0))
              \cup C("sum_to_zero", \A i \in 1..Len(e.G), j \in 1..Len(t.cats) : SumsToZero(e.G[i][j], "1/10000"))]
    [] e.op = "scoreslopes" ->
        LET S == RForce([i \in 1..Len(t.F) |-> [j \in 1..Len(t.cats) |-> LET s == ScoreSlope(t.F[i][j], t.pts[j])
                                                                     IN [v \in 1..Len(s) |-> RDbl(RDiv(s[v], e.by[j]))]]])
        IN [st |-> t, bad |-> C("slopes_of_the_expected_scores",
                IF e.mean THEN Near(e.S, [j \in 1..Len(t.cats) |-> [v \in 1..Len(S[1][1]) |-> RDiv(RSum([i \in 1..Len(S) |-> S[i][j][v]]), Len(S))]], e.tol)
                ELSE Near(e.S, S, e.tol))]
    [] e.op = "information" ->
        [st |-> [t EXCEPT !.I = e.I],
         bad |-> C("expected_outer_product", Near(e.I, Infos(t.P, t.F), e.tol))
              \cup C("agrees_with_the_gradients", t.G = <<>> \/ Near(e.I, Infos(t.P, t.G), "1/2000"))]
    [] e.op = "test" -> [st |-> t, bad |-> C("sum_over_items", Near(e.T, [i \in 1..Len(t.I) |-> MatSum(t.I[i])], "1/10000"))]
    [] e.op = "direction" ->
        LET D == [i \in 1..Len(t.I) |-> [j \in 1..Len(t.I[i]) |-> InDirection(t.I[i][j], e.cos)]]
        IN [st |-> t, bad |-> C("weighted_direction", Near(e.D, D, "1/5000"))
                           \cup C("sum_over_items", Near(e.T, [i \in 1..Len(D) |-> RSum(D[i])], "1/5000"))]
    [] e.op = "rescaled" ->      \* information about theta' with Jacobian A = d theta' / d theta
        LET back(m) == [a \in 1..Len(e.A) |-> [b \in 1..Len(e.A) |-> RSum([c \in 1..Len(e.A) |-> RSum([d \in 1..Len(e.A) |-> RMul(RMul(e.A[c][a], m[c][d]), e.A[d][b])])])]]
        IN [st |-> t, bad |-> C("information_moves_with_the_scale", Near([i \in 1..Len(e.I) |-> [j \in 1..Len(e.I[i]) |-> back(e.I[i][j])]], t.I, "1/1000"))]
    [] OTHER -> [st |-> t, bad |-> {"unknown_event"}]
TraceInit == l = 1 /\ st = S0
TraceNext == /\ l <= Len(Trace)
             /\ LET e == Trace[l]
                    r == Step(IF e.first THEN S0 ELSE st, e)
                IN /\ st' = r.st
                   /\ l' = l + 1
                   /\ (r.bad = {} \/ PrintT(<<"FAIL", l, e.op, r.bad>>))
TraceSpec == TraceInit /\ [][TraceNext]_<<l, st>>
TraceAccepted ==
  /\ PrintT(<<"ACCEPTED", TLCGet("stats").diameter - 1>>)
  /\ \A o \in {Trace[i].op : i \in 1..Len(Trace)} : PrintT(<<"STAT", o, Cardinality({i \in 1..Len(Trace) : Trace[i].op = o})>>)
=============================================================================
