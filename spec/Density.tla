------------------------------- MODULE Density -------------------------------
(* Latent densities: moments of a normal distribution that a quadrature rule  *)
(* must reproduce, normal scores of a sample, and mixtures of normals fitted  *)
(* by expectation-maximization (one or two variables).                        *)
EXTENDS Rat, SequencesExt, FiniteSets
\* E[prod X_i^alpha_i] for X ~ N(mu, cov), peeling one factor of coordinate i (Stein)
Less(alpha, k) == [alpha EXCEPT ![k] = @ - 1]
RECURSIVE Moment(_, _, _)
Peel(mu, cov, alpha, i) ==
  LET rest == Less(alpha, i)
  IN RAdd(RMul(mu[i], Moment(mu, cov, rest)),
          RSum([k \in 1..Len(mu) |-> IF rest[k] = 0 THEN "0" ELSE RMul(RMul(cov[i][k], rest[k]), Moment(mu, cov, Less(rest, k)))]))
Moment(mu, cov, alpha) == IF \A k \in 1..Len(alpha) : alpha[k] = 0 THEN "1"
                          ELSE Peel(mu, cov, alpha, CHOOSE k \in 1..Len(alpha) : alpha[k] > 0 /\ \A m \in 1..(k - 1) : alpha[m] = 0)
Degree(alpha) == FoldLeft(LAMBDA a, k : a + k, 0, alpha)
Pow(x, k) == FoldLeft(LAMBDA a, i : RMul(a, x), "1", [i \in 1..k |-> i])
Monomial(x, alpha) == FoldLeft(LAMBDA a, k : RMul(a, Pow(x[k], alpha[k])), "1", [k \in 1..Len(alpha) |-> k])
Diagonal(cov) == \A i, k \in 1..Len(cov) : i = k \/ REq(cov[i][k], 0)
Exact(n, cov, alpha) == Degree(alpha) <= 2 * n - 1 \/ (Diagonal(cov) /\ \A k \in 1..Len(alpha) : alpha[k] <= 2 * n - 1)
Average(w, points, alpha) == RSum([i \in 1..Len(w) |-> RMul(w[i], Monomial(points[i], alpha))])
AverageAbs(w, points, alpha) == RSum([i \in 1..Len(w) |-> RMul(RAbs(w[i]), RAbs(Monomial(points[i], alpha)))])
\* ---- densities
TwoPi == RDiv(1, RMul(RNormPdf(0), RNormPdf(0)))
Det(c) == IF Len(c) = 1 THEN c[1][1] ELSE RSub(RMul(c[1][1], c[2][2]), RMul(c[1][2], c[2][1]))
Form(x, mu, c) == LET d == [k \in 1..Len(mu) |-> RSub(x[k], mu[k])]
                  IN IF Len(mu) = 1 THEN RDiv(RMul(d[1], d[1]), c[1][1])
                     ELSE RDiv(RAdd(RSub(RMul(RMul(d[1], d[1]), c[2][2]), RMul(RMul(2, RMul(d[1], d[2])), c[1][2])), RMul(RMul(d[2], d[2]), c[1][1])), Det(c))
NormalDensity(x, mu, c) == RDiv(RExp(RNeg(RDiv(Form(x, mu, c), 2))), RSqrt(RMul(IF Len(mu) = 1 THEN TwoPi ELSE RMul(TwoPi, TwoPi), Det(c))))
\* a mixture: w[k] weight, mu[k] mean, c[k] covariance matrix
Parts(m, x) == RForce([k \in 1..Len(m.w) |-> RDbl(RMul(m.w[k], NormalDensity(x, m.mu[k], m.c[k])))])
Mixture(m, x) == RSum(Parts(m, x))
LogLik(m, data) == RSum([i \in 1..Len(data) |-> RLn(Mixture(m, data[i]))])
Shares(m, data) == [i \in 1..Len(data) |-> LET p == Parts(m, data[i]) IN RForce([k \in 1..Len(p) |-> RDbl(RDiv(p[k], RSum(p)))])]
EM(m, data) ==
  LET r == Shares(m, data)
      D == Len(data[1])
      tot == RForce([k \in 1..Len(m.w) |-> RSum([i \in 1..Len(data) |-> r[i][k]])])
      mu == [k \in 1..Len(m.w) |-> RForce([d \in 1..D |-> RDbl(RDiv(RSum([i \in 1..Len(data) |-> RMul(r[i][k], data[i][d])]), tot[k]))])]
  IN [w |-> [k \in 1..Len(m.w) |-> RDbl(RDiv(tot[k], Len(data)))], mu |-> mu,
      c |-> [k \in 1..Len(m.w) |-> [a \in 1..D |-> RForce([b \in 1..D |->
               RDbl(RDiv(RSum([i \in 1..Len(data) |-> RMul(r[i][k], RMul(RSub(data[i][a], mu[k][a]), RSub(data[i][b], mu[k][b])))]), tot[k]))])]]]
Steps(m, data, n) == FoldLeft(LAMBDA a, i : EM(a, data), m, [i \in 1..n |-> i])
MeanOf(data, d) == RDiv(RSum([i \in 1..Len(data) |-> data[i][d]]), Len(data))
MixtureMean(m, d) == RSum([k \in 1..Len(m.w) |-> RMul(m.w[k], m.mu[k][d])])
\* ---- normal scores: what ranks the members of a sample equal to v take
Ranks(s, v) == LET below == Cardinality({i \in 1..Len(s) : RLt(s[i], v)})
                   upto == Cardinality({i \in 1..Len(s) : RLe(s[i], v)})
               IN {RDiv(r, Len(s) + 1) : r \in (below + 1)..upto}
\* piecewise linear through the points (x, y), x increasing, going on straight at both ends
Piece(x, v) == LET below == Cardinality({i \in 1..Len(x) : RLe(x[i], v)})
               IN IF below = 0 THEN 1 ELSE IF below >= Len(x) THEN Len(x) - 1 ELSE below
SlopeAt(x, y, k) == RDiv(RSub(y[k + 1], y[k]), RSub(x[k + 1], x[k]))
Interp(x, y, v) == LET k == Piece(x, v) IN RAdd(y[k], RMul(SlopeAt(x, y, k), RSub(v, x[k])))
Sorted(x) == \A i \in 1..(Len(x) - 1) : RLt(x[i], x[i + 1])
=============================================================================
