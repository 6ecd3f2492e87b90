------------------------------ MODULE FitStats ------------------------------
(* Fit statistics, defined from a probability table P[i][j][k] (respondent, *)
(* item, category + 1), responses x[i][j] (-1 missing), category counts and *)
(* the key of a multiple choice test (<<>> if there is none).               *)
EXTENDS Rat, SequencesExt, FiniteSets

Cells(x) == (1..Len(x)) \X (1..Len(x[1]))
Seen(x, i, j) == x[i][j] # -1
\* mean / sum of the numbers in s, skipping "nan"
Kept(s) == SelectSeq(s, LAMBDA v : ~RIsNaN(v))
NanSum(s) == RSum(Kept(s))
NanMean(s) == LET k == Kept(s) IN IF Len(k) = 0 THEN "nan" ELSE RDiv(RSum(k), Len(k))
Row(m, i) == m[i]
Col(m, j) == [i \in 1..Len(m) |-> m[i][j]]
Flat(m) == FoldLeft(LAMBDA acc, r : acc \o r, <<>>, m)

Score(key, j, k) == IF key = <<>> THEN k - 1 ELSE IF k - 1 = key[j] THEN 1 ELSE 0
ExpScore(P, key, i, j) == RSum([k \in 1..Len(P[i][j]) |-> RMul(P[i][j][k], Score(key, j, k))])
VarScore(P, key, i, j) == LET m == ExpScore(P, key, i, j)
                          IN RSum([k \in 1..Len(P[i][j]) |-> LET d == RSub(Score(key, j, k), m) IN RMul(RMul(d, d), P[i][j][k])])
ObsScore(x, key, i, j) == Score(key, j, x[i][j] + 1)

\* ---- residuals
Residual(P, x, key, i, j) ==
  IF ~Seen(x, i, j) THEN "nan"
  ELSE IF key # <<>> THEN RSub(1, P[i][j][x[i][j] + 1])
  ELSE RSub(x[i][j], ExpScore(P, key, i, j))
Table(f(_, _), x) == RForce([i \in 1..Len(x) |-> [j \in 1..Len(x[1]) |-> f(i, j)]])
Residuals(P, x, key) == Table(LAMBDA i, j : Residual(P, x, key, i, j), x)
\* level: "none" (table), "item" (one value per item), "respondent", "all" (one value)
MeanAt(T, level) ==
  CASE level = "none" -> T
    [] level = "item" -> [j \in 1..Len(T[1]) |-> NanMean(Col(T, j))]
    [] level = "respondent" -> [i \in 1..Len(T) |-> NanMean(Row(T, i))]
    [] level = "all" -> <<NanMean(Flat(T))>>
SumAt(T, level) ==
  CASE level = "none" -> T
    [] level = "item" -> [j \in 1..Len(T[1]) |-> NanSum(Col(T, j))]
    [] level = "respondent" -> [i \in 1..Len(T) |-> NanSum(Row(T, i))]
    [] level = "all" -> <<NanSum(Flat(T))>>

\* ---- accuracy and predictions
Best(p) == CHOOSE k \in 1..Len(p) : \A h \in 1..Len(p) : RLe(p[h], p[k])
Predicted(P, i, j) == Best(P[i][j]) - 1
Hit(P, x, i, j) == IF ~Seen(x, i, j) THEN "nan" ELSE IF Predicted(P, i, j) = x[i][j] THEN 1 ELSE 0
Hits(P, x) == Table(LAMBDA i, j : Hit(P, x, i, j), x)
Ratio(a, b) == IF a = 0 THEN 0 ELSE RDiv(a, b)
Count(S) == Cardinality(S)
Prediction(P, x, M, j) ==
  LET obs == {i \in 1..Len(x) : Seen(x, i, j)}
      tp(k) == Count({i \in obs : x[i][j] = k /\ Predicted(P, i, j) = k})
      pos(k) == Count({i \in obs : Predicted(P, i, j) = k})
      real(k) == Count({i \in obs : x[i][j] = k})
      prec(k) == Ratio(tp(k), pos(k))
      rec(k) == Ratio(tp(k), real(k))
      f(k) == IF tp(k) = 0 THEN 0 ELSE RDiv(RMul(2, RMul(prec(k), rec(k))), RAdd(prec(k), rec(k)))
      avg(g(_)) == RDiv(RSum([k \in 1..M |-> g(k - 1)]), M)
      wavg(g(_)) == RDiv(RSum([k \in 1..M |-> RMul(g(k - 1), real(k - 1))]), Count(obs))
  IN <<avg(prec), avg(rec), avg(f), wavg(prec), wavg(rec), wavg(f)>>

\* ---- infit and outfit
SqErr(P, x, key, i, j) == IF ~Seen(x, i, j) THEN "nan" ELSE LET d == RSub(ObsScore(x, key, i, j), ExpScore(P, key, i, j)) IN RMul(d, d)
Weight(P, x, key, i, j) == IF ~Seen(x, i, j) THEN "nan" ELSE VarScore(P, key, i, j)
Std(P, x, key, i, j) == IF ~Seen(x, i, j) THEN "nan" ELSE LET s == SqErr(P, x, key, i, j) IN IF REq(s, 0) THEN 0 ELSE RDiv(s, VarScore(P, key, i, j))
Infit(P, x, key, level) ==
  LET s == SumAt(Table(LAMBDA i, j : SqErr(P, x, key, i, j), x), level)
      w == SumAt(Table(LAMBDA i, j : Weight(P, x, key, i, j), x), level)
  IN [a \in 1..Len(s) |-> RDiv(s[a], w[a])]
Outfit(P, x, key, level) == MeanAt(Table(LAMBDA i, j : Std(P, x, key, i, j), x), level)

\* ---- log-likelihood; a response of probability zero counts as -30
LogP(p) == IF REq(p, 0) THEN -30 ELSE RLn(p)
LogLik(P, x) == Table(LAMBDA i, j : IF ~Seen(x, i, j) THEN "nan" ELSE LogP(P[i][j][x[i][j] + 1]), x)

\* ---- groups of respondents by ascending score: sizes equal up to one, larger ones first
GroupSize(n, G, g) == n \div G + (IF g <= n % G THEN 1 ELSE 0)
GroupStart(n, G, g) == (g - 1) * (n \div G) + (IF g - 1 <= n % G THEN g - 1 ELSE n % G)
Rank(score, i) == Cardinality({h \in 1..Len(score) : RLt(score[h], score[i]) \/ (REq(score[h], score[i]) /\ h < i)}) + 1
Ordered(score) == RForce([r \in 1..Len(score) |-> CHOOSE i \in 1..Len(score) : Rank(score, i) = r])
Members(order, G, g) == LET n == Len(order) IN SubSeq(order, GroupStart(n, G, g) + 1, GroupStart(n, G, g) + GroupSize(n, G, g))
MeanOver(mem, f(_)) == RDiv(RSum([a \in 1..Len(mem) |-> f(mem[a])]), Len(mem))
GroupObserved(x, mem, j, k) ==
  LET obs == SelectSeq(mem, LAMBDA i : Seen(x, i, j))
  IN IF Len(obs) = 0 THEN "nan" ELSE RDiv(Len(SelectSeq(obs, LAMBDA i : x[i][j] = k - 1)), Len(obs))
GroupModel(P, mem, j, k) == MeanOver(mem, LAMBDA i : P[i][j][k])
=============================================================================
