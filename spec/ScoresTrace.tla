---------------------------- MODULE ScoresTrace ----------------------------
EXTENDS Scores, TraceBase
S0 == <<>>
AT == "1/20000"
RT == "1/10000"
N(e) == Len(e.P)
J(e) == Len(e.cats)
Expected(e) ==
  C("expected_item_scores", Len(e.items) = N(e) /\ \A i \in 1..N(e) : RSeqClose(e.items[i], [j \in 1..J(e) |-> ItemScore(e.P[i], e.key, j)], AT, RT))
  \cup C("expected_test_score", RSeqClose(e.total, [i \in 1..N(e) |-> TestScore(e.P[i], e.key)], AT, RT))
  \cup C("population_difficulty", RSeqClose(e.difficulty, [j \in 1..J(e) |-> Difficulty(e.P, e.cats, e.key, j)], AT, RT))
SumScores(e) ==
  LET want == Marginal(e.P, e.w, e.cats, e.key)
  IN C("one_probability_per_sum_score", Len(e.out) = Len(want))
     \cup C("sum_score_distribution", Len(e.out) # Len(want) \/ RSeqClose(e.out, want, e.tol, 0))
     \cup C("sums_to_one", RClose(RSum(e.out), 1, "1/10000", 0))
\* e.x[r][j]: r-th sample; respondent (r - 1) % n + 1; e.n respondents, e.R repetitions
Within(e) == \A r \in 1..Len(e.x) : Len(e.x[r]) = J(e) /\ \A j \in 1..J(e) : RIsInt(e.x[r][j]) /\ RLe(0, e.x[r][j]) /\ RLt(e.x[r][j], e.cats[j])
Freq(count, R) == RDiv(count, R)
\* six standard errors
Fits(p, f, R) == RLe(RAbs(RSub(f, p)), RAdd(RMul(6, RSqrt(RDiv(RMul(p, RSub(1, RMin2(p, 1))), R))), RDiv(3, R)))
Sampled(e) ==
  C("shape", Len(e.counts) = N(e) /\ e.inside)
  \cup C("category_frequencies", \A i \in 1..N(e) : \A j \in 1..J(e) : \A k \in 1..Len(e.P[i][j]) : Fits(e.P[i][j][k], Freq(e.counts[i][j][k], e.R), e.R))
  \cup C("items_independent", \A i \in 1..N(e) : \A a \in 1..Len(e.pairs) :
          LET q == e.pairs[a] IN Fits(RMul(e.P[i][q.j1][q.k1], e.P[i][q.j2][q.k2]), Freq(q.counts[i], e.R), e.R))
  \cup C("impossible_categories_never_drawn", \A i \in 1..N(e) : \A j \in 1..J(e) : \A k \in 1..Len(e.P[i][j]) : REq(e.P[i][j][k], 0) => REq(e.counts[i][j][k], 0))
Judge(e) == CASE e.op = "expected" -> Expected(e)
              [] e.op = "sumscore" -> SumScores(e)
              [] e.op = "sample" -> Sampled(e)
              [] e.op = "observed" -> C("observed_sum_scores", RSeqClose(e.out, [i \in 1..Len(e.x) |-> RSum([j \in 1..Len(e.x[i]) |-> IF e.key = <<>> THEN e.x[i][j] ELSE IF REq(e.x[i][j], e.key[j]) THEN 1 ELSE 0])], AT, RT))
Step(t, e) == [st |-> t, bad |-> IF Raised(e) THEN {"computed"} ELSE Judge(e)]
TraceInit == l = 1 /\ st = S0
TraceNext == /\ l <= Len(Trace)
             /\ LET e == Trace[l]
                    r == Step(IF e.first THEN S0 ELSE st, e)
                IN /\ st' = r.st
                   /\ l' = l + 1
                   /\ (r.bad = {} \/ PrintT(<<"FAIL", l, e.op, r.bad>>))
TraceSpec == TraceInit /\ [][TraceNext]_<<l, st>>
TraceAccepted ==
  /\ PrintT(<<"ACCEPTED", TLCGet("stats").diameter - 1>>)
  /\ \A o \in {Trace[i].op : i \in 1..Len(Trace)} : PrintT(<<"STAT", o, Cardinality({i \in 1..Len(Trace) : Trace[i].op = o})>>)
=============================================================================
