--------------------------- MODULE FitStatsTrace ---------------------------
(* Recorded answers of Evaluator checked against FitStats.                   *)
EXTENDS FitStats, TraceBase
S0 == <<>>
AT == "1/20000"
RT == "1/5000"
Int2(m) == RForce([i \in 1..Len(m) |-> [j \in 1..Len(m[i]) |-> RToInt(m[i][j])]])
SameTable(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(b) : Len(a[i]) = Len(b[i]) /\ RSeqClose(a[i], b[i], AT, RT)
Same(out, want, level) == IF level = "none" THEN SameTable(out, want) ELSE Len(out) = Len(want) /\ RSeqClose(out, want, AT, RT)

Groups(e, x) ==
  LET ord == Ordered(e.score)
      n == Len(x)
      G == e.groups
      J == Len(x[1])
      mem == RForce([g \in 1..G |-> Members(ord, G, g)])
  IN CASE e.op = "group_ll" ->
         C("number_of_groups", Len(e.out) = G) \cup
         C("mean_log_likelihood_of_the_members", Len(e.out) # G \/
           LET L == RForce([i \in 1..n |-> NanSum(LogLik(e.P, x)[i])])
           IN \A g \in 1..G : RClose(e.out[g], MeanOver(mem[g], LAMBDA i : L[i]), "1/1000", "1/2000"))
     [] e.op = "group_probs" ->
         C("number_of_groups", Len(e.obs) = G /\ Len(e.model) = G /\ Len(e.mid) = G) \cup
         (IF Len(e.obs) # G THEN {} ELSE
          C("observed_proportions_of_the_members", \A g \in 1..G : \A j \in 1..J : \A k \in 1..Len(e.obs[g][j]) : RClose(e.obs[g][j][k], GroupObserved(x, mem[g], j, k), AT, RT))
          \cup C("model_probabilities_of_the_members", \A g \in 1..G : \A j \in 1..J : \A k \in 1..Len(e.model[g][j]) : RClose(e.model[g][j][k], GroupModel(e.P, mem[g], j, k), AT, RT))
          \cup C("mid_point_in_the_group", \A g \in 1..G : RLe(RSub(e.score[mem[g][1]], AT), e.mid[g]) /\ RLe(e.mid[g], RAdd(e.score[mem[g][Len(mem[g])]], AT))))
     [] e.op = "group_resid" ->
         C("number_of_groups", Len(e.out) = G /\ Len(e.mid) = G) \cup
         (IF Len(e.out) # G THEN {} ELSE
          C("residuals_of_the_members", \A g \in 1..G : \A j \in 1..J : \A k \in 1..e.cats[j] :
              LET o == GroupObserved(x, mem[g], j, k)
                  m == GroupModel(e.P, mem[g], j, k)
                  N == Len(SelectSeq(mem[g], LAMBDA i : Seen(x, i, j)))
                  v == RMul(m, RSub(1, m))
              IN IF N = 0 THEN RIsNaN(e.out[g][j][k])
                 ELSE IF ~e.standardize THEN RClose(e.out[g][j][k], RSub(o, m), AT, RT)
                 ELSE RLt(v, "1/1000") \/ RClose(e.out[g][j][k], RDiv(RSub(o, m), RSqrt(RDiv(v, N))), "1/500", "1/500"))
          \cup C("no_residual_for_other_categories", e.standardize \/ \A g \in 1..G : \A j \in 1..J : \A k \in (e.cats[j] + 1)..Len(e.out[g][j]) : RIsNaN(e.out[g][j][k]))
          \cup C("mid_point_in_the_group", \A g \in 1..G : RLe(RSub(e.score[mem[g][1]], AT), e.mid[g]) /\ RLe(e.mid[g], RAdd(e.score[mem[g][Len(mem[g])]], AT))))

Judge(e) ==
  LET x == Int2(e.x) IN
  CASE e.op = "residuals" -> C("residuals", Same(e.out, MeanAt(Residuals(e.P, x, e.key), e.level), e.level))
    [] e.op = "accuracy" -> C("accuracy", Same(e.out, MeanAt(Hits(e.P, x), e.level), e.level))
    [] e.op = "predictions" -> C("one_row_per_item", Len(e.out) = Len(e.cats)) \cup
         C("predictions", Len(e.out) # Len(e.cats) \/ \A j \in 1..Len(e.cats) : RSeqClose(e.out[j], Prediction(e.P, x, e.cats[j], j), AT, RT))
    [] e.op = "fit" -> C("infit", Same(e.infit, Infit(e.P, x, e.key, e.level), e.level)) \cup C("outfit", Same(e.outfit, Outfit(e.P, x, e.key, e.level), e.level))
    [] e.op = "loglik" -> C("log_likelihood", Same(e.out, IF e.reduction = "mean" THEN MeanAt(LogLik(e.P, x), e.level) ELSE SumAt(LogLik(e.P, x), e.level), e.level))
    [] OTHER -> Groups(e, x)
Step(t, e) == [st |-> t, bad |-> IF Raised(e) THEN {"computed"} ELSE Judge(e)]
TraceInit == l = 1 /\ st = S0
TraceNext == /\ l <= Len(Trace)
             /\ LET e == Trace[l]
                    r == Step(IF e.first THEN S0 ELSE st, e)
                IN /\ st' = r.st
                   /\ l' = l + 1
                   /\ (r.bad = {} \/ PrintT(<<"FAIL", l, e.op, r.bad>>))
TraceSpec == TraceInit /\ [][TraceNext]_<<l, st>>
TraceAccepted ==
  /\ PrintT(<<"ACCEPTED", TLCGet("stats").diameter - 1>>)
  /\ \A o \in {Trace[i].op : i \in 1..Len(Trace)} : PrintT(<<"STAT", o, Cardinality({i \in 1..Len(Trace) : Trace[i].op = o})>>)
=============================================================================
