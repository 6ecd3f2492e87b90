------------------------------ MODULE Scoring ------------------------------
(* Latent scores.  G: latent points, P[g][j][k]: probability of category     *)
(* k - 1 of item j at point g; x[i][j] responses (-1 missing); Prec: inverse *)
(* of the prior covariance (<<>>: no prior).                                 *)
EXTENDS Rat, SequencesExt, FiniteSets
\* response likelihood of respondent responses r where item probabilities are p
Lik(p, r) == FoldLeft(LAMBDA a, j : IF r[j] = -1 THEN a ELSE RDbl(RMul(a, p[j][r[j] + 1])), "1", [j \in 1..Len(r) |-> j])
LogLik(p, r) == RSum([j \in 1..Len(r) |-> IF r[j] = -1 THEN 0 ELSE RLn(p[j][r[j] + 1])])
Quad(t, Prec) == RSum([a \in 1..Len(t) |-> RMul(t[a], RDot(Prec[a], t))])
\* up to a constant that does not depend on t
LogPrior(t, Prec) == IF Prec = <<>> THEN 0 ELSE RMul("-1/2", Quad(t, Prec))
IsInverse(A, B, tol) == \A a, b \in 1..Len(A) : RClose(RSum([c \in 1..Len(A) |-> RMul(A[a][c], B[c][b])]), IF a = b THEN 1 ELSE 0, tol, 0)

\* ---- averaging the posterior over the points
PriorW(G, Prec) == RForce([g \in 1..Len(G) |-> RDbl(RExp(LogPrior(G[g], Prec)))])
Posterior(W, P, r) == RForce([g \in 1..Len(W) |-> RDbl(RMul(W[g], Lik(P[g], r)))])
Mean(w, G, v) == LET s == RSum(w) IN IF REq(s, 0) THEN "nan" ELSE RDbl(RDiv(RSum([g \in 1..Len(w) |-> RMul(w[g], G[g][v])]), s))
EAP(G, P, Prec, x) == LET W == PriorW(G, Prec)
                      IN [i \in 1..Len(x) |-> LET w == Posterior(W, P, x[i]) IN [v \in 1..Len(G[1]) |-> Mean(w, G, v)]]
\* ---- optimizing the posterior (or the likelihood)
Objective(t, p, r, Prec) == RAdd(LogLik(p, r), LogPrior(t, Prec))
Between(v, a, b, tol) == RIsNum(v) /\ RLe(RSub(RMin2(a, b), tol), v) /\ RLe(v, RAdd(RMax2(a, b), tol))
=============================================================================
