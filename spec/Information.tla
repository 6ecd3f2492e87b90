---------------------------- MODULE Information ----------------------------
(* Slopes of response probabilities and the information items carry.         *)
(* An item at a latent point: p[k] probability of category k - 1, g[k][v]    *)
(* its derivative with respect to latent variable v.                         *)
EXTENDS Rat, SequencesExt, FiniteSets
Dims(g) == Len(g[1])
\* Fisher information matrix of an item: expected outer product of the slope of the log probability
ItemInfo(p, g) ==
  [a \in 1..Dims(g) |-> [b \in 1..Dims(g) |->
     RSum([k \in 1..Len(p) |-> IF REq(p[k], 0) THEN 0 ELSE RDiv(RMul(g[k][a], g[k][b]), p[k])])]]
MatSum(ms) == [a \in 1..Len(ms[1]) |-> [b \in 1..Len(ms[1]) |-> RSum([j \in 1..Len(ms) |-> ms[j][a][b]])]]
InDirection(m, c) == RSum([a \in 1..Len(c) |-> RMul(c[a], RDot(m[a], c))])
\* slope of the expected score: points[k] for category k - 1
ScoreSlope(g, points) == [v \in 1..Dims(g) |-> RSum([k \in 1..Len(points) |-> RMul(points[k], g[k][v])])]
MeanOf(p, points) == RDot(p, points)
VarOf(p, points) == LET m == MeanOf(p, points) IN RSum([k \in 1..Len(p) |-> RMul(p[k], RMul(RSub(points[k], m), RSub(points[k], m)))])
SumsToZero(g, tol) == \A v \in 1..Dims(g) : RClose(RSum([k \in 1..Len(g) |-> g[k][v]]), 0, tol, 0)
\* extrapolated central difference from values at distance h and 2h
Central(lo, hi, h) == RDiv(RSub(hi, lo), RMul(2, h))
Slope(l1, h1, l2, h2, h) == RDiv(RSub(RMul(4, Central(l1, h1, h)), Central(l2, h2, RMul(2, h))), 3)
=============================================================================
