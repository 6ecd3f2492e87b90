------------------------------ MODULE DataPrep ------------------------------
(* Preparing response data.  A table x[i][j] \in {-1} \cup 0..cats[j]-1      *)
(* (-1: missing, however it is coded) goes through preparation steps; each   *)
(* step is a relation between the table before it and what it returns.       *)
EXTENDS Rat, FiniteSets
NRows(x) == Len(x)
NItems(x) == Len(x[1])
Seen(x, i, j) == x[i][j] # -1
SeenIn(x, j) == {i \in 1..NRows(x) : Seen(x, i, j)}
SetMax(S) == CHOOSE a \in S : \A b \in S : b <= a
\* categories of an item: one more than the largest observed response
Cats(x, j) == SetMax({x[i][j] : i \in SeenIn(x, j)}) + 1
ColMean(x, j) == RDiv(RSum([i \in 1..NRows(x) |-> IF Seen(x, i, j) THEN x[i][j] ELSE 0]), Cardinality(SeenIn(x, j)))
Wrong(cats, key, j) == (0..(cats[j] - 1)) \ {key[j]}

\* what an imputation method may put in a missing cell (E: the model's expected item scores at the prior mean)
MayImpute(m, x, cats, key, E, j, v) ==
  CASE m = "zero" -> REq(v, 0)
    [] m = "mean" -> SeenIn(x, j) = {} \/ RClose(v, ColMean(x, j), "1/100000", "1/1000000")
    [] m = "random incorrect" -> RIsNum(v) /\ RIsInt(v) /\ RToInt(v) \in Wrong(cats, key, j)
    [] m = "prior expected" -> RIsNum(v) /\ RIsInt(v) /\ RLe(RAbs(RSub(v, E[j])), "5001/10000")
SameSize(x, y) == Len(y) = NRows(x) /\ \A i \in 1..Len(y) : Len(y[i]) = NItems(x)
ObservedKept(x, y) == \A i \in 1..NRows(x), j \in 1..NItems(x) : Seen(x, i, j) => REq(y[i][j], x[i][j])
MissingFilled(m, x, cats, key, E, y) == \A i \in 1..NRows(x), j \in 1..NItems(x) : ~Seen(x, i, j) => MayImpute(m, x, cats, key, E, j, y[i][j])

RECURSIVE OffsetOf(_, _)
OffsetOf(cats, j) == IF j = 1 THEN 0 ELSE OffsetOf(cats, j - 1) + cats[j - 1]
ItemAt(cats, c) == CHOOSE j \in 1..Len(cats) : OffsetOf(cats, j) < c /\ c <= OffsetOf(cats, j) + cats[j]
Width(cats) == OffsetOf(cats, Len(cats)) + cats[Len(cats)]
OneHot(x, cats) ==
  [i \in 1..NRows(x) |-> [c \in 1..Width(cats) |-> LET j == ItemAt(cats, c) IN IF x[i][j] = c - 1 - OffsetOf(cats, j) THEN 1 ELSE 0]]
\* reading a code back: the marked category, or missing where nothing is marked
Decode(h, cats) ==
  [i \in 1..Len(h) |-> [j \in 1..Len(cats) |->
     LET S == {k \in 0..(cats[j] - 1) : REq(h[i][OffsetOf(cats, j) + k + 1], 1)} IN IF S = {} THEN -1 ELSE CHOOSE k \in S : TRUE]]

SumScore(x, key) == [i \in 1..NRows(x) |-> RSum([j \in 1..NItems(x) |-> IF key = <<>> THEN x[i][j] ELSE IF x[i][j] = key[j] THEN 1 ELSE 0])]

\* a split of the rows: ids of the rows in the two parts
SplitOK(n, a, b) == /\ Len(a) + Len(b) = n
                    /\ {a[i] : i \in 1..Len(a)} \cup {b[i] : i \in 1..Len(b)} = 1..n
ProportionOK(n, a, ratio) == RLe(RAbs(RSub(Len(a), RMul(n, ratio))), 1)
InOrder(n, a, b) == a \o b = [i \in 1..n |-> i]

\* guessing: options of an item and the probability a guesser has of each
GuessProb(cats, key, g, j, k) ==
  IF key # <<>> THEN IF k = key[j] THEN g[j] ELSE RDiv(RSub(1, g[j]), cats[j] - 1)
  ELSE IF cats[j] = 2 THEN IF k = 1 THEN g[j] ELSE RSub(1, g[j])
  ELSE IF k = 0 THEN 1 ELSE 0
CountOf(y, j, k) == Cardinality({i \in 1..Len(y) : REq(y[i][j], k)})
\* a count of n draws agrees with probability p: within six standard deviations
Plausible(count, n, p) == LET d == RSub(count, RMul(n, p)) IN RLe(RMul(d, d), RAdd(RMul(36, RMul(n, RMul(p, RSub(1, p)))), "1/1000"))
=============================================================================
