----------------------------- MODULE DensityMC -----------------------------
(* Moments of every small normal distribution, one factor more at a time.     *)
EXTENDS Density, TLC, Json
CONSTANTS MaxDegree, Dim
VARIABLES mu, cov, alpha
vars == <<mu, cov, alpha>>
Means == [1..Dim -> {-1, 0, 2}]
Mats == IF Dim = 1 THEN {<<<<v>>>> : v \in {"1/4", "1", "3"}}
        ELSE IF Dim = 2 THEN {<<<<a, r>>, <<r, b>>>> : a \in {"1", "2"}, b \in {"1", "3/2"}, r \in {"0", "1/2", "-3/4"}}
        ELSE {<<<<"1", r, "0">>, <<r, "2", s>>, <<"0", s, "3/2">>>> : r \in {"0", "1/2"}, s \in {"0", "-1/2", "1/4"}}
Init == mu \in Means /\ cov \in Mats /\ alpha = [k \in 1..Dim |-> 0]
Next == \E k \in 1..Dim : Degree(alpha) < MaxDegree /\ alpha' = [alpha EXCEPT ![k] = @ + 1] /\ UNCHANGED <<mu, cov>>
Spec == Init /\ [][Next]_vars
M(a) == Moment(mu, cov, a)
Double(a) == [k \in 1..Dim |-> 2 * a[k]]
AnyFactorFirst == \A i \in 1..Dim : alpha[i] = 0 \/ REq(Peel(mu, cov, alpha, i), M(alpha))
EvenPositive == RLt(0, M(Double(alpha)))
CauchySchwarz == RLe(RMul(M(alpha), M(alpha)), M(Double(alpha)))
OddVanish == (\A k \in 1..Dim : mu[k] = 0) => (Degree(alpha) % 2 = 0 \/ REq(M(alpha), 0))
FirstTwo == /\ Degree(alpha) = 1 => \A k \in 1..Dim : alpha[k] = 0 \/ REq(M(alpha), mu[k])
            /\ Degree(alpha) = 2 => \A i, k \in 1..Dim : LET a == [m \in 1..Dim |-> (IF m = i THEN 1 ELSE 0) + (IF m = k THEN 1 ELSE 0)]
                                                        IN a # alpha \/ REq(M(alpha), RAdd(RMul(mu[i], mu[k]), cov[i][k]))
Independent == Diagonal(cov) => REq(M(alpha), FoldLeft(LAMBDA a, k : RMul(a, Moment(<<mu[k]>>, <<<<cov[k][k]>>>>, <<alpha[k]>>)), "1", [k \in 1..Dim |-> k]))
Emit == Degree(alpha) = MaxDegree => PrintT("SCENARIO " \o ToJson([mu |-> mu, cov |-> cov, alpha |-> alpha]))
=============================================================================
