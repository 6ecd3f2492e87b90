----------------------------- MODULE ModulesMC -----------------------------
(* Every block with every small parameter choice, its input moved upwards     *)
(* over a grid.                                                               *)
EXTENDS Modules, TLC, Json
CONSTANTS Steps, Bins, Half
VARIABLES kind, par, i
vars == <<kind, par, i>>
H == "1/10000"
Grid(k) == RDiv(k - Steps \div 2, Half)          \* inputs from below zero to above zero
Raw == {"-3/2", "0", "1"}
Bounds == {<<0, 1, 0, 1>>, <<-1, 1, -2, 3>>, <<-2, 1, 0, "1/2">>}
Spl(w, h, d, b) == [w |-> w, h |-> h, d |-> d, li |-> b[1], ui |-> b[2], lo |-> b[3], uo |-> b[4], mw |-> "1/1000", mh |-> "1/1000", md |-> "1/1000",
                    slope |-> RDiv(RSub(b[4], b[3]), RSub(b[2], b[1]))]
Splines == {Spl(w, h, d, b) : w \in [1..Bins -> Raw], h \in [1..Bins -> Raw], d \in [1..(Bins - 1) -> {"-2", "1/2"}], b \in Bounds}
Polys == {[omega |-> o, alpha |-> a, tau |-> t] : o \in {"-1", "1"}, a \in UNION {[1..k -> {"-1", "1/2"}] : k \in 0..2}, t \in {"-2", "1"}}
Bases == {[inner |-> n, degree |-> d] : n \in {<<>>, <<"0">>, <<"-1", "1/2">>}, d \in 1..3}
Init == i = 0 /\ \/ kind = "spline" /\ par \in Splines
                 \/ kind = "poly" /\ par \in Polys
                 \/ kind = "basis" /\ par \in Bases
                 \/ kind = "elu" /\ par \in {[alpha |-> a] : a \in {"1/2", "1", "2"}}
Next == i < Steps /\ i' = i + 1 /\ UNCHANGED <<kind, par>>
Spec == Init /\ [][Next]_vars
X == Grid(i)
U == RDiv(i, Steps)      \* position in the unit interval, for bases
Poly(p, v) == MonoPoly(p.omega, p.alpha, [k \in DOMAIN p.alpha |-> p.tau], v)
Val(k, p, v) == CASE k = "spline" -> Forward(p, Curve(p), v) [] k = "poly" -> Poly(p, v) [] k = "elu" -> Bounded(p.alpha, v)
Slo(k, p, v) == CASE k = "spline" -> SlopeAt(p, Curve(p), v) [] k = "elu" -> BoundedSlope(p.alpha, v)
\* never decreases as the input moves up
Rising == [][kind = "basis" \/ RLt(Val(kind, par, X), Val(kind, par, X'))]_vars
Near(a, b, t) == RClose(a, b, t, t)
Kn == Knots(par.inner, par.degree)
\* the derivative is the limit of the difference quotient, from both sides of every point where it is continuous
Kink == kind = "spline" /\ \E b \in {par.li, par.ui} : RLe(RAbs(RSub(X, b)), H)
OwnSlope == kind = "basis" \/ Kink \/ (kind = "elu" /\ ~REq(par.alpha, 1) /\ RLe(RAbs(RSub(RAbs(X), 1)), H)) \/ kind = "poly" \/
            Near(RDiv(RSub(Val(kind, par, RAdd(X, H)), Val(kind, par, RSub(X, H))), RMul(2, H)), Slo(kind, par, X), "1/100")
PolySlope == kind # "poly" \/ LET d == MonoPolyDeriv(par.omega, par.alpha, [k \in DOMAIN par.alpha |-> par.tau])
                                  at(v) == RAdd(d[1], IF Len(d) = 1 THEN 0 ELSE PolyAt0(SubSeq(d, 2, Len(d)), v))
                              IN RLt(0, at(X)) /\ Near(RDiv(RSub(Poly(par, RAdd(X, H)), Poly(par, RSub(X, H))), RMul(2, H)), at(X), "1/1000")
There == kind # "spline" \/ LET c == Curve(par) IN
           /\ RClose(Backward(par, c, Forward(par, c, X)), X, "1/100000", 0)
           /\ REq(Forward(par, c, par.li), par.lo) /\ RClose(Forward(par, c, par.ui), par.uo, "1/1000000", 0)
           /\ \A k \in 1..Len(c.x) : RClose(Forward(par, c, c.x[k]), c.y[k], "1/1000000", 0)
           /\ RLt(0, SlopeAt(par, c, X))
IdentityTails == kind # "spline" \/ ~(REq(par.li, par.lo) /\ REq(par.ui, par.uo)) \/ (RLe(par.li, X) /\ RLe(X, par.ui)) \/ REq(Forward(par, Curve(par), X), X)
Unity == kind # "basis" \/ LET b == Basis(Kn, par.degree, U) IN
           /\ Near(RSum(b), 1, "1/1000000000") /\ \A k \in 1..Len(b) : RLe(0, b[k])
           /\ Cardinality({k \in 1..Len(b) : RLt(0, b[k])}) <= par.degree + 1
           /\ Near(RSum(BasisSlope(Kn, par.degree, U)), 0, "1/1000000")
AwayFromKnots == i > 0 /\ i < Steps /\ \A k \in 1..Len(Kn) : RLt(H, RAbs(RSub(Kn[k], U)))
SlopeOfBasis == kind # "basis" \/ ~AwayFromKnots \/ LET a == Basis(Kn, par.degree, RAdd(U, H))
                                                       b == Basis(Kn, par.degree, RSub(U, H))
                                                       s == BasisSlope(Kn, par.degree, U)
                                                   IN \A k \in 1..Len(s) : RClose(RDiv(RSub(a[k], b[k]), RMul(2, H)), s[k], "1/1000", 0)
BoundedOdd == kind # "elu" \/ /\ RLt(RAbs(Bounded(par.alpha, X)), RAdd(1, par.alpha)) /\ Near(Bounded(par.alpha, RNeg(X)), RNeg(Bounded(par.alpha, X)), "1/1000000000")
Emit == (i = 0 /\ kind # "elu") => PrintT("SCENARIO " \o ToJson([kind |-> kind, par |-> par]))
=============================================================================
