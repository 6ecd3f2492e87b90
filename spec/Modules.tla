------------------------------ MODULE Modules ------------------------------
(* Building blocks of models and scales: rational-quadratic splines, B-spline *)
(* bases, monotone polynomials, bounded activations and constrained layers.   *)
EXTENDS Models

\* ---- rational-quadratic spline (Durkan et al. 2019), linear beyond its bounds
\* s: [w, h, d: raw parameters; li, ui, lo, uo: input and output bounds; mw, mh, md: minima; slope: slope beyond the bounds]
RaisedSizes(raw, least) == LET p == Softmax(raw)
                               K == Len(raw)
                           IN RForce([k \in 1..K |-> RDbl(RAdd(least, RMul(RSub(1, RMul(least, K)), p[k])))])
KnotsOf(raw, least, low, up) == LET c == CumSum(RaisedSizes(raw, least)) IN RForce(<<low>> \o [k \in 1..Len(raw) |-> RDbl(RAdd(low, RMul(RSub(up, low), c[k])))])
\* the whole curve: knots and derivatives (1 at both ends)
Curve(s) == RForce([x |-> KnotsOf(s.w, s.mw, s.li, s.ui), y |-> KnotsOf(s.h, s.mh, s.lo, s.uo),
                    d |-> <<1>> \o [k \in 1..Len(s.d) |-> RDbl(RAdd(s.md, Softplus(s.d[k])))] \o <<1>>])
BinOf(kn, v) == CHOOSE k \in 1..(Len(kn) - 1) : (k = 1 \/ RLe(kn[k], v)) /\ (k = Len(kn) - 1 \/ RLt(v, kn[k + 1]))
Parts(c, k) == [dx |-> RSub(c.x[k + 1], c.x[k]), dy |-> RSub(c.y[k + 1], c.y[k]), m |-> RDbl(RDiv(RSub(c.y[k + 1], c.y[k]), RSub(c.x[k + 1], c.x[k]))), a |-> c.d[k], b |-> c.d[k + 1]]
InBin(c, k, t) == LET p == Parts(c, k)
                      q == RMul(t, RSub(1, t))
                      den == RAdd(p.m, RMul(RSub(RAdd(p.a, p.b), RMul(2, p.m)), q))
                  IN RDbl(RAdd(c.y[k], RDiv(RMul(p.dy, RAdd(RMul(p.m, RMul(t, t)), RMul(p.a, q))), den)))
SlopeInBin(c, k, t) == LET p == Parts(c, k)
                           q == RMul(t, RSub(1, t))
                           den == RAdd(p.m, RMul(RSub(RAdd(p.a, p.b), RMul(2, p.m)), q))
                           num == RMul(RMul(p.m, p.m), RAdd(RAdd(RMul(p.b, RMul(t, t)), RMul(RMul(2, p.m), q)), RMul(p.a, RMul(RSub(1, t), RSub(1, t)))))
                       IN RDbl(RDiv(num, RMul(den, den)))
Below(s, v) == RLt(v, s.li)
Above(s, v) == RLt(s.ui, v)
Forward(s, c, v) ==
  IF Below(s, v) THEN RAdd(s.lo, RMul(RSub(v, s.li), s.slope))
  ELSE IF Above(s, v) THEN RAdd(s.uo, RMul(RSub(v, s.ui), s.slope))
  ELSE LET k == BinOf(c.x, v) IN InBin(c, k, RDbl(RDiv(RSub(v, c.x[k]), Parts(c, k).dx)))
SlopeAt(s, c, v) ==
  IF Below(s, v) \/ Above(s, v) THEN s.slope
  ELSE LET k == BinOf(c.x, v) IN SlopeInBin(c, k, RDbl(RDiv(RSub(v, c.x[k]), Parts(c, k).dx)))
\* the inverse, by solving the quadratic of the bin the value lies in
Backward(s, c, v) ==
  IF RLt(v, s.lo) THEN RAdd(s.li, RDiv(RSub(v, s.lo), s.slope))
  ELSE IF RLt(s.uo, v) THEN RAdd(s.ui, RDiv(RSub(v, s.uo), s.slope))
  ELSE LET k == BinOf(c.y, v)
           p == Parts(c, k)
           e == RSub(v, c.y[k])
           s2 == RSub(RAdd(p.a, p.b), RMul(2, p.m))
           qa == RAdd(RMul(p.dy, RSub(p.m, p.a)), RMul(e, s2))
           qb == RSub(RMul(p.dy, p.a), RMul(e, s2))
           qc == RNeg(RMul(p.m, e))
           disc == RSub(RMul(qb, qb), RMul(4, RMul(qa, qc)))
       IN RDbl(RAdd(c.x[k], RMul(p.dx, RDiv(RMul(2, qc), RSub(RNeg(qb), RSqrt(RMax2(disc, 0)))))))

\* ---- derivative of a B-spline basis
BasisSlope(kn, degree, u) ==
  LET b == Basis(kn, degree - 1, u)
  IN RForce([i \in 1..(Len(b) - 1) |->
       RMul(degree, RSub(IF RLt(kn[i], kn[i + degree]) THEN RDiv(b[i], RSub(kn[i + degree], kn[i])) ELSE 0,
                         IF RLt(kn[i + 1], kn[i + degree + 1]) THEN RDiv(b[i + 1], RSub(kn[i + degree + 1], kn[i + 1])) ELSE 0))])

\* ---- bounded activation: identity on [-1, 1], exponential tails
Bounded(alpha, v) == IF RLe(v, -1) THEN RSub(RMul(alpha, RSub(RExp(RAdd(v, 1)), 1)), 1)
                     ELSE IF RLt(v, 1) THEN v
                     ELSE RAdd(RMul(alpha, RSub(1, RExp(RSub(1, v)))), 1)
BoundedSlope(alpha, v) == IF RLe(v, -1) THEN RMul(alpha, RExp(RAdd(v, 1))) ELSE IF RLt(v, 1) THEN 1 ELSE RMul(alpha, RExp(RSub(1, v)))

\* ---- polynomial module: omega[i][o], alpha[k][i][o], tau[k][i][o]; rel[i][o]; dir[i][o] (all 1 without negative relationships)
PolyCoef(p, i, o) == IF ~p.rel[i][o] THEN [n \in 1..(2 * Len(p.alpha) + 1) |-> "0"]
  ELSE LET b == PolyInt(MonoPolyDeriv(p.omega[i][o], [k \in 1..Len(p.alpha) |-> p.alpha[k][i][o]], [k \in 1..Len(p.tau) |-> p.tau[k][i][o]]))
       IN RForce([n \in 1..Len(b) |-> RMul(p.dir[i][o], b[n])])
PolyOut(p, coef, row, o) == RAdd(p.intercept[o], RSum([i \in 1..Len(row) |-> PolyAt0(coef[i][o], row[i])]))
Coefs(p) == RForce([i \in 1..Len(p.rel) |-> [o \in 1..Len(p.rel[1]) |-> PolyCoef(p, i, o)]])

\* ---- constrained linear layers: which inputs may reach which outputs
\* groups of sizes s: index of the group position n belongs to
GroupOf(s, n) == CHOOSE g \in 1..Len(s) : n > FoldLeft(LAMBDA a, b : a + b, 0, SubSeq(s, 1, g - 1)) /\ n <= FoldLeft(LAMBDA a, b : a + b, 0, SubSeq(s, 1, g))
Even(total, G) == [g \in 1..G |-> total \div G + (IF g <= total % G THEN 1 ELSE 0)]
Wired(net, i, o) == /\ i \notin net.zero_in /\ o \notin net.zero_out
                  /\ (Len(net.groups_in) = 0 \/ GroupOf(net.groups_in, i) = GroupOf(IF Len(net.groups_out) = 0 THEN Even(net.outs, Len(net.groups_in)) ELSE net.groups_out, o))
=============================================================================
