------------------------------ MODULE LocalDep ------------------------------
(* Dependence between items: residual correlations, entropies and mutual      *)
(* information of observed responses and of the model, and the sampling       *)
(* distribution of both under the model (every possible data set, weighted).  *)
EXTENDS FitStats
Both(x, i, j) == SelectSeq([r \in 1..Len(x) |-> r], LAMBDA r : x[r][i] # -1 /\ x[r][j] # -1)

\* ---- correlation of the columns i and j of a table (missing entries "nan") over the rows holding both
Together(T, i, j) == SelectSeq([r \in 1..Len(T) |-> r], LAMBDA r : ~RIsNaN(T[r][i]) /\ ~RIsNaN(T[r][j]))
MeanOf(s) == RDiv(RSum(s), Len(s))
Cross(a, b) == LET ma == MeanOf(a)
                   mb == MeanOf(b)
               IN RSum([k \in 1..Len(a) |-> RMul(RSub(a[k], ma), RSub(b[k], mb))])
Pick(T, rows, j) == RForce([k \in 1..Len(rows) |-> T[rows[k]][j]])
Varies(a) == Len(a) > 1 /\ RLt("1/10000", RDiv(Cross(a, a), Len(a)))
Pearson(a, b) == RDiv(Cross(a, b), RSqrt(RMul(Cross(a, a), Cross(b, b))))
CorrDefined(T, i, j) == LET rows == Together(T, i, j) IN Len(rows) > 1 /\ Varies(Pick(T, rows, i)) /\ Varies(Pick(T, rows, j))
Corr(T, i, j) == LET rows == Together(T, i, j) IN Pearson(Pick(T, rows, i), Pick(T, rows, j))

\* ---- entropies
PLnP(p) == IF REq(p, 0) THEN 0 ELSE RMul(p, RLn(p))
Entropy(p, base) == RDiv(RNeg(RSum([k \in 1..Len(p) |-> PLnP(p[k])])), RLn(base))
PairsOf(x, i, j) == LET rows == Both(x, i, j) IN [k \in 1..Len(rows) |-> <<x[rows[k]][i], x[rows[k]][j]>>]
Shares(s) == LET vals == SetToSeq({s[k] : k \in 1..Len(s)})
             IN [v \in 1..Len(vals) |-> RDiv(Len(SelectSeq(s, LAMBDA q : q = vals[v])), Len(s))]
JointEntropy(x, i, j, base) == Entropy(Shares(PairsOf(x, i, j)), base)
Information2(x, i, j, base) == RSub(RAdd(JointEntropy(x, i, i, base), JointEntropy(x, j, j, base)), JointEntropy(x, i, j, base))

\* ---- the model's own mutual information of two items over the respondents
Marginal(P, i) == [k \in 1..Len(P[1][i]) |-> RDbl(MeanOf([r \in 1..Len(P) |-> P[r][i][k]]))]
JointModel(P, i, j) == FoldLeft(LAMBDA acc, k : acc \o [h \in 1..Len(P[1][j]) |-> RDbl(MeanOf([r \in 1..Len(P) |-> RMul(P[r][i][k], P[r][j][h])]))], <<>>, [k \in 1..Len(P[1][i]) |-> k])
ModelInformation(P, i, j, base) == RSub(RAdd(Entropy(Marginal(P, i), base), Entropy(Marginal(P, j), base)), Entropy(JointModel(P, i, j), base))
Difference(x, P, i, j, base) == RSub(Information2(x, i, j, base), ModelInformation(P, i, j, base))

\* ---- every data set the model can produce for two items: sequences of response pairs with their probability
Outcomes(P, i, j) == [1..Len(P) -> (1..Len(P[1][i])) \X (1..Len(P[1][j]))]
Chance(P, i, j, d) == FoldLeft(LAMBDA acc, r : RDbl(RMul(acc, RMul(P[r][i][d[r][1]], P[r][j][d[r][2]]))), "1", [r \in 1..Len(P) |-> r])
AsData(d) == RForce([r \in DOMAIN d |-> <<d[r][1] - 1, d[r][2] - 1>>])
AsProbs(P, i, j) == RForce([r \in 1..Len(P) |-> <<P[r][i], P[r][j]>>])
AsKey(key, i, j) == IF key = <<>> THEN <<>> ELSE <<key[i], key[j]>>
\* <<statistic, probability>> of every such data set
Sampling(P, i, j, stat(_)) == LET ds == SetToSeq(Outcomes(P, i, j)) IN RForce([k \in 1..Len(ds) |-> <<stat(AsData(ds[k])), Chance(P, i, j, ds[k])>>])
Mass(law, keep(_)) == RSum([k \in 1..Len(law) |-> IF keep(law[k][1]) THEN law[k][2] ELSE 0])
NullCorr(P, key, i, j) ==
  LET Q == AsProbs(P, i, j)
  IN Sampling(P, i, j, LAMBDA y : LET T == Residuals(Q, y, AsKey(key, i, j)) IN IF CorrDefined(T, 1, 2) THEN RDbl(Corr(T, 1, 2)) ELSE "nan")
NullDifference(P, i, j, base) ==
  LET m == ModelInformation(P, i, j, base)
  IN Sampling(P, i, j, LAMBDA y : RDbl(RAbs(RSub(Information2(y, 1, 2, base), m))))
=============================================================================
