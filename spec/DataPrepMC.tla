---------------------------- MODULE DataPrepMC -----------------------------
(* All small tables through chains of preparation steps.                     *)
EXTENDS DataPrep, TLC, Json
CONSTANTS N, K, MaxSteps
J == 2
VARIABLES x0, key, cod, y, steps
vars == <<x0, key, cod, y, steps>>
cats == <<K, 2>>
Tables == {t \in [1..N -> [1..J -> (-1)..(K - 1)]] : \A i \in 1..N : t[i][2] < 2}
Methods == {"zero", "mean", "random incorrect"}
Init == /\ x0 \in Tables /\ \A j \in 1..J : SeenIn(x0, j) # {}
        /\ key \in {<<0, 1>>, <<K - 1, 0>>}
        /\ cod \in SUBSET {i \in 1..N : \E j \in 1..J : x0[i][j] = -1}     \* respondents whose missing cells are coded -1
        /\ y = x0 /\ steps = <<>>
\* 100 + j stands for the mean of item j
Val(t, f) == [i \in 1..N |-> [j \in 1..J |-> IF f[i][j] >= 100 THEN ColMean(t, j) ELSE f[i][j]]]
Cell(m, i, j) == IF Seen(y, i, j) THEN {y[i][j]}
                 ELSE CASE m = "zero" -> {0} [] m = "mean" -> {100 + j} [] m = "random incorrect" -> Wrong(cats, key, j)
Whole == \A i \in 1..N, j \in 1..J : y[i][j] \in (-1)..(K - 1)
Impute(m) == /\ Len(steps) < MaxSteps /\ steps' = Append(steps, m)
             /\ Whole
             /\ \E f \in [1..N -> [1..J -> UNION {Cell(m, i, j) : i \in 1..N, j \in 1..J}]] :
                  /\ \A i \in 1..N, j \in 1..J : f[i][j] \in Cell(m, i, j)
                  /\ y' = f
             /\ UNCHANGED <<x0, key, cod>>
Code == /\ Len(steps) < MaxSteps /\ Whole /\ steps' = Append(steps, "code")
        /\ y' = Decode(OneHot(y, cats), cats) /\ UNCHANGED <<x0, key, cod>>
Next == Code \/ \E m \in Methods : Impute(m)
Spec == Init /\ [][Next]_vars
Preserved == ObservedKept(x0, y)
\* coding and decoding is the identity; imputing fills everything and imputing a full table changes nothing
CodeIsFaithful == [][steps' = Append(steps, "code") => y' = y]_vars
Filled == (\E a \in 1..Len(steps) : steps[a] # "code") => \A i \in 1..N, j \in 1..J : y[i][j] # -1
Once == [][(\A i \in 1..N, j \in 1..J : y[i][j] # -1) => y' = y]_vars
Relation == [][\A m \in Methods : steps' = Append(steps, m) => MissingFilled(m, y, cats, key, <<>>, Val(y, y')) /\ ObservedKept(y, Val(y, y'))]_vars
InRange == Whole => \A i \in 1..N : y[i][1] < K /\ y[i][2] < 2
OneMark == Whole => \A i \in 1..N : RSum(OneHot(y, cats)[i]) = RInt(Cardinality({j \in 1..J : y[i][j] # -1}))
Rows == [i \in 1..N |-> i]
\* every cut of the rows is a split in order; repeating or losing a row is not
Cuts == \A c \in 0..N : LET a == SubSeq(Rows, 1, c)
                            b == SubSeq(Rows, c + 1, N)
                        IN SplitOK(N, a, b) /\ InOrder(N, a, b) /\ (c < N => ~SplitOK(N, a, Tail(b))) /\ (c > 0 /\ c < N => ~SplitOK(N, a, [b EXCEPT ![1] = a[1]]))
GuessSums == \A g \in {"1/4", "1/2"} : \A k2 \in {<<>>, key} : \A j \in 1..J :
               REq(RSum([k \in 1..cats[j] |-> GuessProb(cats, k2, <<g, g>>, j, k - 1)]), 1)
Emit == steps = <<>> => PrintT("SCENARIO " \o ToJson([x |-> x0, key |-> key, minus |-> cod]))
=============================================================================
