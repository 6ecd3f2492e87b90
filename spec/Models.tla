------------------------------- MODULE Models -------------------------------
(* Item response models as functions from latent scores and item parameters *)
(* to probability distributions over an item's own response categories.     *)
(* Sequences are indexed from 1; response category x is at position x + 1.  *)
(* Numbers are those of Rat.  Everything here is a mathematical definition  *)
(* taken from the published models, not from the code.                      *)
EXTENDS Rat, FiniteSets, SequencesExt

One(p) == RSub(1, p)
Sigmoid(x) == IF RLt(x, 0) THEN LET t == RExp(x) IN RDbl(RDiv(t, RAdd(1, t))) ELSE RDbl(RDiv(1, RAdd(1, RExp(RNeg(x)))))
Softplus(x) == IF RLt(20, x) THEN RAdd(x, RExp(RNeg(x))) ELSE RDbl(RLn(RAdd(1, RExp(x))))
RMaxSeq(s) == FoldLeft(LAMBDA a, b : RMax2(a, b), "-inf", s)
CumSum(s) == RForce([i \in 1..Len(s) |-> RSum(SubSeq(s, 1, i))])

Softmax(z) ==
  LET m == RMaxSeq(z)
      e == RForce([i \in 1..Len(z) |-> RExp(RSub(z[i], m))])
      t == RSum(e)
  IN RForce([i \in 1..Len(z) |-> RDbl(RDiv(e[i], t))])

\* ---- logits / probabilities of one item with M categories at theta
TwoPL(a, d, theta) == LET p == Sigmoid(RAdd(RDot(a, theta), d)) IN <<One(p), p>>
OnePL(d, theta) == TwoPL(<<1>>, d, theta)
ThreePL(a, d, c, theta) == LET p == RAdd(c, RMul(One(c), Sigmoid(RAdd(RDot(a, theta), d)))) IN <<One(p), p>>
\* d[k] is the intercept of category k (d[1], category 0, is 0)
GPC(a, d, M, theta) == LET t == RDot(a, theta) IN Softmax([k \in 1..M |-> RAdd(RMul(k - 1, t), d[k])])
\* d[k] is the intercept of P(X >= k), k = 1..M-1
Graded(a, d, M, theta) ==
  LET t == RDot(a, theta)
      geq == RForce([k \in 0..M |-> k])
      G(k) == IF k = 0 THEN 1 ELSE IF k >= M THEN 0 ELSE Sigmoid(RAdd(t, d[k]))
  IN RForce([k \in 1..M |-> RSub(G(k - 1), G(k))])
\* a[k] is the weight vector of category k
Nominal(a, d, M, theta) == Softmax([k \in 1..M |-> RAdd(RDot(a[k], theta), d[k])])
SumToZero(s) == RClose(RSum(s), 0, "1/100000", 0)

\* correct: the binary probabilities <<P(0), P(1)>>; cond: distribution over the incorrect options in order
Nested(correct, cond, key, M) ==
  RForce([k \in 1..M |-> IF k = key + 1 THEN correct[2] ELSE RMul(correct[1], cond[IF k < key + 1 THEN k ELSE k - 1])])

\* ---- monotone polynomials: p'(x) = softplus(omega) * PROD (1 - 2 alpha_i x + (alpha_i^2 + softplus(tau_i)) x^2)
PolyMul(p, q) ==
  RForce([n \in 1..(Len(p) + Len(q) - 1) |->
    RSum([i \in 1..Len(p) |-> IF n - i + 1 \in 1..Len(q) THEN RMul(p[i], q[n - i + 1]) ELSE 0])])
MonoPolyDeriv(omega, alpha, tau) ==
  FoldLeft(LAMBDA acc, i : PolyMul(acc, <<1, RMul(-2, alpha[i]), RAdd(RMul(alpha[i], alpha[i]), Softplus(tau[i]))>>),
           <<Softplus(omega)>>, [i \in 1..Len(alpha) |-> i])
PolyInt(p) == RForce([i \in 1..Len(p) |-> RDiv(p[i], i)])      \* coefficients of x^1, x^2, ...
PolyAt0(p, x) == FoldRight(LAMBDA c, acc : RMul(x, RAdd(c, acc)), p, 0)   \* SUM p[i] x^i
MonoPoly(omega, alpha, tau, x) == RDbl(PolyAt0(PolyInt(MonoPolyDeriv(omega, alpha, tau)), x))

\* ---- B-splines: clamped knots (degree+1 equal end knots), Cox - de Boor
Basis0(kn, u) ==
  LET n == Len(kn) - 1
      last == CHOOSE i \in 1..n : RLt(kn[i], kn[i + 1]) /\ \A j \in (i + 1)..n : ~RLt(kn[j], kn[j + 1])
  IN RForce([i \in 1..n |-> IF RLt(kn[i], kn[i + 1]) /\ RLe(kn[i], u) /\ (RLt(u, kn[i + 1]) \/ (i = last /\ REq(u, kn[i + 1]))) THEN 1 ELSE 0])
BasisUp(kn, u, b, k) ==
  RForce([i \in 1..(Len(b) - 1) |->
    LET w1 == IF RLt(kn[i], kn[i + k]) THEN RDiv(RSub(u, kn[i]), RSub(kn[i + k], kn[i])) ELSE 0
        w2 == IF RLt(kn[i + 1], kn[i + k + 1]) THEN RDiv(RSub(kn[i + k + 1], u), RSub(kn[i + k + 1], kn[i + 1])) ELSE 0
    IN RDbl(RAdd(RMul(w1, b[i]), RMul(w2, b[i + 1])))])
Basis(kn, degree, u) == FoldLeft(LAMBDA b, k : BasisUp(kn, u, b, k), Basis0(kn, u), [k \in 1..degree |-> k])
Knots(inner, degree) == [i \in 1..(degree + 1) |-> 0] \o [i \in 1..Len(inner) |-> Sigmoid(inner[i])] \o [i \in 1..(degree + 1) |-> 1]
\* coefficients are increasing: running sums of softplus
MonoSpline(raw, basis) == RDot(CumSum([i \in 1..Len(raw) |-> Softplus(raw[i])]), basis)

\* monotone B-spline model: raw[v] (one spline per latent variable) or raw[k][v] (one per category k >= 1)
SplineItems(raw, d, M, bases) ==
  LET s == RSum([v \in 1..Len(bases) |-> MonoSpline(raw[v], bases[v])])
  IN Softmax([k \in 1..M |-> RAdd(RMul(k - 1, s), IF k = 1 THEN 0 ELSE d[k - 1])])
SplineCategories(raw, d, M, bases) ==
  LET s == RForce([k \in 1..(M - 1) |-> RSum([v \in 1..Len(bases) |-> MonoSpline(raw[k][v], bases[v])])])
      cs == CumSum(s)
  IN Softmax([k \in 1..M |-> IF k = 1 THEN 0 ELSE RAdd(cs[k - 1], d[k - 1])])
\* free (not monotone) spline logits, one coefficient vector per option and latent variable
SplineNominal(coef, M, bases) == Softmax([k \in 1..M |-> RSum([v \in 1..Len(bases) |-> RDot(coef[k][v], bases[v])])])
\* surprisals s[m] of the steps M-1, M-2, ..., 1 (top step first): sequential stick breaking from the top category
StickBreak(s, M) ==
  RForce([k \in 1..M |->
     LET tail == RExp(RNeg(RSum([i \in 1..(M - k) |-> s[i]])))   \* all steps above category k-1 missed
     IN IF k = 1 THEN tail ELSE RMul(tail, RSub(1, RExp(RNeg(s[M - k + 1]))))])

\* monotone polynomial model: f[k] category functions (k = 1..M), running sums over categories
CategoryCum(f, d, M) == LET cs == CumSum(f) IN Softmax([k \in 1..M |-> RAdd(cs[k], d[k])])

\* ---- what every model owes
IsDistribution(p, tol) ==
  /\ \A k \in 1..Len(p) : RIsNum(p[k]) /\ RLe(RNeg(tol), p[k]) /\ RLe(p[k], RAdd(1, tol))
  /\ RClose(RSum(p), 1, tol, 0)
OwnCategoriesOnly(p, M) == \A k \in (M + 1)..Len(p) : REq(p[k], 0)
LogLik(p, x) == RLn(p[x + 1])
Expected(p) == RSum([k \in 1..Len(p) |-> RMul(k - 1, p[k])])
=============================================================================
