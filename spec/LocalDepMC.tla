----------------------------- MODULE LocalDepMC -----------------------------
(* Every small data set and every small set of model probabilities, grown one *)
(* respondent at a time.                                                      *)
EXTENDS LocalDep, TLC, Json
CONSTANTS Rows, ProbRows, Items
VARIABLES x, P
vars == <<x, P>>
Curves == {<<"1/4", "3/4", "0">>, <<"1/2", "1/3", "1/6">>, <<"0", "1", "0">>}
Init == x = <<>> /\ P = <<>>
Respond == P = <<>> /\ Len(x) < Rows /\ \E r \in [1..Items -> {-1, 0, 1, 2}] : x' = Append(x, r) /\ UNCHANGED P
Predict == x = <<>> /\ Len(P) < ProbRows /\ \E r \in [1..Items -> Curves] : P' = Append(P, r) /\ UNCHANGED x
Next == Respond \/ Predict
Spec == Init /\ [][Next]_vars
EPS == "1/1000000000"
Le(a, b) == RLe(a, RAdd(b, EPS))
Near(a, b) == RClose(a, b, EPS, 0)
I2(y, i, j) == Information2(y, i, j, 2)
H(y, i, j) == JointEntropy(y, i, j, 2)
Complete(y) == \A r \in 1..Len(y) : \A j \in 1..Items : y[r][j] # -1
Pairs == {<<i, j>> \in (1..Items) \X (1..Items) : i # j}
HasBoth(y, i, j) == Len(Both(y, i, j)) > 0
Real(y) == [r \in 1..Len(y) |-> [j \in 1..Items |-> IF y[r][j] = -1 THEN "nan" ELSE RInt(y[r][j])]]

Symmetric == \A p \in Pairs : HasBoth(x, p[1], p[2]) => Near(H(x, p[1], p[2]), H(x, p[2], p[1]))
Bounded == (Len(x) > 0 /\ Complete(x)) => \A p \in Pairs :
             /\ Le(0, I2(x, p[1], p[2])) /\ Le(I2(x, p[1], p[2]), H(x, p[1], p[1])) /\ Le(I2(x, p[1], p[2]), H(x, p[2], p[2]))
             /\ Le(H(x, p[1], p[1]), H(x, p[1], p[2])) /\ Le(H(x, p[1], p[2]), RAdd(H(x, p[1], p[1]), H(x, p[2], p[2])))
\* a respondent who misses one of the two items does not matter to the pair
OnlyThePair == \A p \in Pairs : HasBoth(x, p[1], p[2]) =>
                 LET y == Append(x, [j \in 1..Items |-> IF j = p[1] THEN -1 ELSE 2])
                 IN Near(H(x, p[1], p[2]), H(y, p[1], p[2])) /\ Both(x, p[1], p[2]) = Both(y, p[1], p[2])
\* entropies see categories, not their numbers
Relabel == \A p \in Pairs : HasBoth(x, p[1], p[2]) =>
             LET y == [r \in 1..Len(x) |-> [j \in 1..Items |-> IF x[r][j] = -1 THEN -1 ELSE 2 - x[r][j]]]
             IN Near(H(x, p[1], p[2]), H(y, p[1], p[2]))
Doubled == \A p \in Pairs : HasBoth(x, p[1], p[2]) => Near(H(x, p[1], p[2]), H(x \o x, p[1], p[2]))
BaseChange == \A p \in Pairs : HasBoth(x, p[1], p[2]) => Near(JointEntropy(x, p[1], p[2], 4), RDiv(H(x, p[1], p[2]), 2))
CorrLaws == \A p \in Pairs : CorrDefined(Real(x), p[1], p[2]) =>
              LET T == Real(x)
                  c == Corr(T, p[1], p[2])
                  N == [r \in 1..Len(T) |-> [j \in 1..Items |-> IF j = p[1] /\ ~RIsNaN(T[r][j]) THEN RSub(5, RMul(2, T[r][j])) ELSE T[r][j]]]
              IN /\ Le(RAbs(c), 1)
                 /\ Near(c, Corr(T, p[2], p[1]))
                 /\ Near(Corr(N, p[1], p[2]), RNeg(c))
                 /\ Near(Corr(T, p[1], p[1]), 1)
\* items are independent given the respondent, so only respondents that differ make them informative
ModelLaws == Len(P) > 0 => \A p \in Pairs :
               /\ Le(0, ModelInformation(P, p[1], p[2], 2))
               /\ (\A r, q \in 1..Len(P) : P[r][p[1]] = P[q][p[1]]) => Near(ModelInformation(P, p[1], p[2], 2), 0)
               /\ Near(ModelInformation(P, p[1], p[2], 2), ModelInformation(P, p[2], p[1], 2))
NullIsALaw == Len(P) \in {1, 2} => \A p \in Pairs : p[1] < p[2] =>
               Near(Mass(NullDifference(P, p[1], p[2], 2), LAMBDA v : TRUE), 1)
Emit == Len(x) = Rows => PrintT("SCENARIO " \o ToJson([x |-> x]))
=============================================================================
