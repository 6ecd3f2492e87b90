------------------------------ MODULE ModelsMC ------------------------------
(* Bounded exploration of the model definitions: every parameter combination *)
(* on a small grid; the state is one item with its parameters.               *)
EXTENDS Models, TLC, IOUtils
CONSTANTS Grid, ThetaGrid, MaxM
VARIABLES it
vars == <<it>>
Vals == Grid
Tol == "1/1000000000"
Init == \E M \in 2..MaxM, a \in Vals, th \in ThetaGrid, d \in [1..MaxM -> Vals], c \in {"0", "1/5"} :
          /\ \A k \in (M + 1)..MaxM : d[k] = "0"
          /\ it = [M |-> M, a |-> a, d |-> d, c |-> c, th |-> th]
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
dd == [k \in 1..it.M |-> IF k = 1 THEN "0" ELSE it.d[k]]
desc == RSort([k \in 1..(it.M - 1) |-> it.d[k + 1]])
ord == [k \in 1..(it.M - 1) |-> desc[it.M - k]]
sp == [k \in 1..(it.M - 1) |-> Softplus(it.d[k + 1])]
key == (it.M - 1) \div 2
Close(p, q) == RSeqClose(p, q, Tol, 0)
gpc == GPC(<<it.a>>, dd, it.M, <<it.th>>)
nom == Nominal([k \in 1..it.M |-> <<RMul(k - 1, it.a)>>], dd, it.M, <<it.th>>)
gr == Graded(<<it.a>>, ord, it.M, <<it.th>>)
ne == Nested(ThreePL(<<it.a>>, it.d[2], it.c, <<it.th>>), IF it.M = 2 THEN <<1>> ELSE Softmax([k \in 1..(it.M - 1) |-> it.d[k + 1]]), key, it.M)
st == StickBreak(sp, it.M)
Distributions == \A p \in {gpc, nom, gr, ne, st} : Len(p) = it.M /\ IsDistribution(p, Tol)
GpcIsNominal == Close(gpc, nom)
BinaryCoincide == it.M = 2 => /\ Close(gpc, TwoPL(<<it.a>>, dd[2], <<it.th>>))
                              /\ Close(gr, TwoPL(<<it.a>>, ord[1], <<it.th>>))
                              /\ Close(ThreePL(<<it.a>>, dd[2], "0", <<it.th>>), TwoPL(<<it.a>>, dd[2], <<it.th>>))
NestedConditionals == \A k \in 1..it.M : k # key + 1 => RLe(ne[k], RAdd(RSub(1, ne[key + 1]), Tol))
\* the steps of the stick are conditional "not at least" probabilities: P(X < m) telescopes
StickTelescopes == \A m \in 1..(it.M - 1) : RClose(RSum(SubSeq(st, 1, m)), RExp(RNeg(RSum(SubSeq(sp, 1, it.M - m)))), Tol, 0)
kn == Knots(<<"-1", "0", "1">>, 3)
bs == Basis(kn, 3, Sigmoid(it.th))
BasisPartition == Len(bs) = 7 /\ RClose(RSum(bs), 1, Tol, 0) /\ \A i \in 1..7 : RLe(0, bs[i])
\* monotone polynomial: derivative is non-negative and the integral's increments agree with it in sign
mp(x) == MonoPoly(it.d[1], <<it.d[2]>>, <<it.a>>, x)
PolyMonotone == RLt(mp(it.th), mp(RAdd(it.th, "1/4")))
RECURSIVE Pow(_, _)
Pow(x, n) == IF n = 0 THEN 1 ELSE RMul(x, Pow(x, n - 1))
PolyIntegral == LET q == MonoPolyDeriv(it.d[1], <<it.d[2]>>, <<it.a>>) IN
  RClose(PolyAt0(PolyInt(q), it.th), RSum([i \in 1..Len(q) |-> RDiv(RMul(q[i], Pow(it.th, i)), i)]), Tol, Tol)
=============================================================================
