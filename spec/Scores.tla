------------------------------- MODULE Scores -------------------------------
(* Scores implied by item response probabilities.  A test taker's items are  *)
(* independent given the latent variables; p[j] is the distribution of item  *)
(* j over its categories, Value(key, j, k) the points of category k - 1.     *)
EXTENDS Rat, SequencesExt, FiniteSets
Value(key, j, k) == IF key = <<>> THEN k - 1 ELSE IF k - 1 = key[j] THEN 1 ELSE 0
ItemScore(p, key, j) == RSum([k \in 1..Len(p[j]) |-> RMul(p[j][k], Value(key, j, k))])
TestScore(p, key) == RSum([j \in 1..Len(p) |-> ItemScore(p, key, j)])
MaxPoints(cats, key, j) == IF key = <<>> THEN cats[j] - 1 ELSE 1
Highest(cats, key) == FoldLeft(LAMBDA a, j : a + MaxPoints(cats, key, j), 0, [j \in 1..Len(cats) |-> j])
\* distribution of the points of one item: index = points + 1
Points(p, cats, key, j) == RForce([s \in 1..(MaxPoints(cats, key, j) + 1) |->
    RSum([k \in 1..cats[j] |-> IF Value(key, j, k) = s - 1 THEN p[j][k] ELSE 0])])
\* adding an item with points distribution q to a sum with distribution d
Add(d, q) == RForce([s \in 1..(Len(d) + Len(q) - 1) |->
    RSum([k \in 1..Len(q) |-> IF s - k + 1 \in 1..Len(d) THEN RMul(d[s - k + 1], q[k]) ELSE 0])])
SumDist(p, cats, key) == FoldLeft(LAMBDA d, j : Add(d, Points(p, cats, key, j)), <<1>>, [j \in 1..Len(cats) |-> j])
\* averaged over latent positions with weights w
Marginal(P, w, cats, key) ==
  LET D == RForce([g \in 1..Len(P) |-> SumDist(P[g], cats, key)])
  IN RForce([s \in 1..(Highest(cats, key) + 1) |-> RSum([g \in 1..Len(P) |-> RMul(w[g], D[g][s])])])
Difficulty(P, cats, key, j) ==
  RSub(1, RDiv(RSum([g \in 1..Len(P) |-> RDiv(ItemScore(P[g], key, j), MaxPoints(cats, key, j))]), Len(P)))
=============================================================================
