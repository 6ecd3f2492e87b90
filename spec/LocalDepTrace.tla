--------------------------- MODULE LocalDepTrace ---------------------------
(* Recorded local dependence measures and entropies checked against LocalDep.  *)
EXTENDS LocalDep, TraceBase
S0 == <<>>
AT == "1/20000"
RT == "1/5000"
Int2(m) == RForce([i \in 1..Len(m) |-> [j \in 1..Len(m[i]) |-> RToInt(m[i][j])]])
Square(m, n) == Len(m) = n /\ \A i \in 1..n : Len(m[i]) = n
Labels(e, n) == e.rows = e.columns /\ Len(e.rows) = n
Mirror(m) == \A i, j \in 1..Len(m) : i >= j \/ RSame(<<m[i][j]>>, <<m[j][i]>>, AT, RT)
Off(n) == {<<i, j>> \in (1..n) \X (1..n) : i < j}
Sigma(n) == RDiv(11, RMul(4, RSqrt(n)))   \* 5.5 standard deviations of a proportion of n draws
Judge(e) ==
  CASE e.op = "correlation" ->
         LET n == Len(e.x[1])
         IN IF ~Square(e.out, n) THEN {"one_value_per_pair"}
            ELSE C("symmetric", Mirror(e.out)) \cup
                 C("one_with_itself", \A j \in 1..n : ~CorrDefined(e.x, j, j) \/ RClose(e.out[j][j], 1, AT, 0)) \cup
                 C("correlation_of_the_rows_holding_both", \A p \in Off(n) : ~CorrDefined(e.x, p[1], p[2]) \/ RClose(e.out[p[1]][p[2]], Corr(e.x, p[1], p[2]), "1/2000", 0))
    [] e.op = "joint" ->
         LET x == Int2(e.x)
             n == Len(x[1])
         IN IF ~Square(e.out, n) THEN {"one_value_per_pair"}
            ELSE C("symmetric", Mirror(e.out)) \cup
                 C("entropy_of_the_observed_pairs", \A i, j \in 1..n : i > j \/ RClose(e.out[i][j], JointEntropy(x, i, j, e.base), AT, RT)) \cup
                 C("between_the_marginals_and_their_sum", (\E i \in 1..Len(x) : \E j \in 1..n : x[i][j] = -1) \/ \A p \in Off(n) :
                     /\ RLe(RSub(RMax2(e.out[p[1]][p[1]], e.out[p[2]][p[2]]), AT), e.out[p[1]][p[2]])
                     /\ RLe(e.out[p[1]][p[2]], RAdd(AT, RAdd(e.out[p[1]][p[1]], e.out[p[2]][p[2]]))))
    [] e.op = "entropy" ->
         C("entropy", Len(e.out) = Len(e.p) /\ \A i \in 1..Len(e.p) : RSeqClose(e.out[i], RForce([j \in 1..Len(e.p[i]) |-> Entropy(e.p[i][j], e.base)]), AT, RT))
    [] e.op = "q3" ->
         LET x == Int2(e.x)
             n == Len(x[1])
             T == Residuals(e.P, x, e.key)
         IN IF ~Square(e.out, n) \/ ~Labels(e, n) THEN {"one_value_per_labelled_pair"}
            ELSE C("symmetric", Mirror(e.out)) \cup
                 C("correlation_of_the_residuals", \A p \in Off(n) : ~CorrDefined(T, p[1], p[2]) \/ RClose(e.out[p[1]][p[2]], Corr(T, p[1], p[2]), "1/800", 0))
    [] e.op = "mid" ->
         LET x == Int2(e.x)
             n == Len(x[1])
         IN IF ~Square(e.mid, n) \/ ~Square(e.amid, n) \/ ~Labels(e, n) THEN {"one_value_per_labelled_pair"}
            ELSE C("symmetric", Mirror(e.mid)) \cup
                 C("absolute_value", \A i, j \in 1..n : RClose(e.amid[i][j], RAbs(e.mid[i][j]), AT, 0)) \cup
                 C("observed_minus_model_information", \A p \in Off(n) : RClose(e.mid[p[1]][p[2]], Difference(x, e.P, p[1], p[2], e.base), AT, RT))
    [] e.op = "q3_test" ->
         LET x == Int2(e.x)
             T == Residuals(e.P, x, e.key)
         IN C("frequency_of_more_extreme_correlations_under_the_model", \A p \in Off(Len(x[1])) :
              ~CorrDefined(T, p[1], p[2]) \/
              LET law == NullCorr(e.P, e.key, p[1], p[2])
                  o == Corr(T, p[1], p[2])
                  lo == RSub(o, "1/1000")
                  hi == RAdd(o, "1/1000")
                  tol == RAdd(RMul(2, Sigma(e.samples)), "1/500")
              IN /\ RLe(RMul(2, RMin2(Mass(law, LAMBDA v : ~RIsNaN(v) /\ RLt(v, lo)), Mass(law, LAMBDA v : ~RIsNaN(v) /\ RLt(hi, v)))), RAdd(e.p[p[1]][p[2]], tol))
                 /\ RLe(e.p[p[1]][p[2]], RAdd(tol, RMul(2, RMin2(Mass(law, LAMBDA v : RIsNaN(v) \/ RLt(v, hi)), Mass(law, LAMBDA v : RIsNaN(v) \/ RLt(lo, v)))))))
    [] e.op = "mid_test" ->
         LET x == Int2(e.x)
         IN C("frequency_of_larger_differences_under_the_model", \A p \in Off(Len(x[1])) :
              LET law == NullDifference(e.P, p[1], p[2], e.base)
                  o == RAbs(Difference(x, e.P, p[1], p[2], e.base))
                  tol == RAdd(Sigma(e.samples), "1/500")
              IN /\ RLe(Mass(law, LAMBDA v : RLt(RAdd(o, "1/5000"), v)), RAdd(e.p[p[1]][p[2]], tol))
                 /\ RLe(e.p[p[1]][p[2]], RAdd(tol, Mass(law, LAMBDA v : RLt(RSub(o, "1/5000"), v)))))
\* nothing to report when no pair of items has residuals that vary
NothingToReport(e) == e.op = "q3" /\ LET T == Residuals(e.P, Int2(e.x), e.key) IN \A p \in Off(Len(e.x[1])) : ~CorrDefined(T, p[1], p[2])
Step(t, e) == [st |-> t, bad |-> IF Raised(e) THEN (IF NothingToReport(e) THEN {} ELSE {"computed"}) ELSE Judge(e)]
TraceInit == l = 1 /\ st = S0
TraceNext == /\ l <= Len(Trace)
             /\ LET e == Trace[l]
                    r == Step(IF e.first THEN S0 ELSE st, e)
                IN /\ st' = r.st
                   /\ l' = l + 1
                   /\ (r.bad = {} \/ PrintT(<<"FAIL", l, e.op, r.bad>>))
TraceSpec == TraceInit /\ [][TraceNext]_<<l, st>>
TraceAccepted ==
  /\ PrintT(<<"ACCEPTED", TLCGet("stats").diameter - 1>>)
  /\ \A o \in {Trace[i].op : i \in 1..Len(Trace)} : PrintT(<<"STAT", o, Cardinality({i \in 1..Len(Trace) : Trace[i].op = o})>>)
=============================================================================
