------------------------------ MODULE CrossVal ------------------------------
(* Comparing settings on held-out data.  N respondents, F folds; fold[i] is  *)
(* the fold of respondent i.  A run fits each combination of settings on the *)
(* respondents outside a fold and scores those inside it.                    *)
EXTENDS Rat, SequencesExt, FiniteSets
Held(fold, f) == {i \in 1..Len(fold) : fold[i] = f}
Train(fold, f) == {i \in 1..Len(fold) : fold[i] # f}
Even(sizes) == \A a, b \in DOMAIN sizes : sizes[a] - sizes[b] <= 1
\* every combination of the values of the settings, the last setting changing fastest
RECURSIVE Grid(_)
Grid(values) == IF values = <<>> THEN <<<<>>>>
                ELSE LET rest == Grid(Tail(values)) IN FlattenSeq([a \in 1..Len(values[1]) |-> [b \in 1..Len(rest) |-> <<values[1][a]>> \o rest[b]]])
\* held-out log-likelihood with response probabilities p[j][k] for every respondent; -1 missing
LogLik(p, r) == RSum([j \in 1..Len(r) |-> IF r[j] = -1 THEN 0 ELSE RLn(p[j][r[j] + 1])])
HeldOut(p, rows) == RSum([i \in 1..Len(rows) |-> LogLik(p, rows[i])])
Mean(s) == RDiv(RSum(s), Len(s))
\* the coin whose entropy gives the mean log-likelihood m of a prediction, and what moving from one to another is worth
Entropy(w) == RAdd(RMul(w, RLn(w)), RMul(RSub(1, w), RLn(RSub(1, w))))
Coin(m) == LET step(b, k) == LET c == RDbl(RDiv(RAdd(b[1], b[2]), 2)) IN IF RLt(Entropy(c), m) THEN <<c, b[2]>> ELSE <<b[1], c>>
               r == FoldLeft(step, <<"1/2", "999999999/1000000000">>, [k \in 1..40 |-> k])
           IN RDiv(RAdd(r[1], r[2]), 2)
Vigorish(m1, m2) == LET a == Coin(m1) IN RDiv(RSub(Coin(m2), a), a)
\* splitting data in two
Cut(n, share) == RToInt(RFloor(RMul(n, share)))
=============================================================================
