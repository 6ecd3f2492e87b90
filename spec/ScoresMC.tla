------------------------------ MODULE ScoresMC ------------------------------
(* Items are added to the sum score one at a time.  After each item the      *)
(* distribution kept must equal the one obtained by enumerating all response *)
(* patterns of the items added so far.                                       *)
EXTENDS Scores, TLC, Json
CONSTANTS MaxItems, Weights
VARIABLES p, key, added, dist
vars == <<p, key, added, dist>>
Cats == {<<a, b>> : a, b \in Weights} \cup {<<a, b, c>> : a, b, c \in Weights}
Norm(w) == LET t == FoldLeft(LAMBDA x, y : x + y, 0, w) IN [k \in 1..Len(w) |-> RDiv(w[k], t)]
Tables == UNION {[1..J -> Cats] : J \in 1..MaxItems}
Valid(t) == \A j \in 1..Len(t) : \E k \in 1..Len(t[j]) : t[j][k] > 0
Init == /\ \E t \in {u \in Tables : Valid(u)} : p = [j \in 1..Len(t) |-> Norm(t[j])]
        /\ key \in {<<>>, [j \in 1..Len(p) |-> 0], [j \in 1..Len(p) |-> Len(p[j]) - 1]}
        /\ added = 0 /\ dist = <<1>>
cats == [j \in 1..Len(p) |-> Len(p[j])]
AddItem == /\ added < Len(p)
           /\ added' = added + 1
           /\ dist' = Add(dist, Points(p, cats, key, added + 1))
           /\ UNCHANGED <<p, key>>
Spec == Init /\ [][AddItem]_vars
Patterns == {f \in [1..added -> 1..3] : \A j \in 1..added : f[j] <= cats[j]}
ScoreOf(f) == FoldLeft(LAMBDA a, j : a + Value(key, j, f[j]), 0, [j \in 1..added |-> j])
ProbOf(f) == FoldLeft(LAMBDA a, j : RMul(a, p[j][f[j]]), 1, [j \in 1..added |-> j])
SetSum(S) == LET RECURSIVE go(_) go(T) == IF T = {} THEN 0 ELSE LET f == CHOOSE g \in T : TRUE IN RAdd(ProbOf(f), go(T \ {f})) IN go(S)
IsExact == \A s \in 1..Len(dist) : REq(dist[s], SetSum({f \in Patterns : ScoreOf(f) = s - 1}))
SumsToOne == REq(RSum(dist), 1)
MeanIsExpectedScore == added = Len(p) => REq(RSum([s \in 1..Len(dist) |-> RMul(dist[s], s - 1)]), TestScore(p, key))
Emit == (added = Len(p)) => PrintT("SCENARIO " \o ToJson([cats |-> cats, key |-> key, p |-> [j \in 1..Len(p) |-> [k \in 1..Len(p[j]) |-> RInt(p[j][k])]]]))
=============================================================================
