------------------------------ MODULE GroupsMC ------------------------------
(* Grouping by score: respondents are put, in ascending order of score, into *)
(* the group that is being filled until it has its size.  The groups so      *)
(* filled are those of FitStats.Members: everyone once, sizes equal up to    *)
(* one, no respondent in a later group below one in an earlier group.        *)
EXTENDS FitStats, TLC, Json
CONSTANTS MaxN, MaxScore
VARIABLES score, G, left, filled
vars == <<score, G, left, filled>>
Init == \E n \in 1..MaxN : score \in [1..n -> 0..MaxScore] /\ G \in 1..n /\ left = 1..n /\ filled = [g \in 1..G |-> <<>>]
Open == {g \in 1..G : Len(filled[g]) < GroupSize(Len(score), G, g)}
Place == /\ left # {}
         /\ LET i == CHOOSE a \in left : \A b \in left : score[a] < score[b] \/ (score[a] = score[b] /\ a <= b)
                g == CHOOSE a \in Open : \A b \in Open : a <= b
            IN filled' = [filled EXCEPT ![g] = Append(@, i)] /\ left' = left \ {i}
         /\ UNCHANGED <<score, G>>
Spec == Init /\ [][Place]_vars
Done == left = {}
n == Len(score)
Sized == \A g, h \in 1..G : GroupSize(n, G, g) - GroupSize(n, G, h) \in -1..1 /\ GroupSize(n, G, g) >= 1
MatchesMembers == Done => \A g \in 1..G : filled[g] = Members(Ordered(score), G, g)
Everyone == UNION {{filled[g][a] : a \in 1..Len(filled[g])} : g \in 1..G} = (1..n) \ left
Ascending == \A g, h \in 1..G : g < h => \A a \in 1..Len(filled[g]) : \A b \in 1..Len(filled[h]) : score[filled[g][a]] <= score[filled[h][b]]
Emit == (Done /\ Cardinality({score[i] : i \in 1..n}) = n) => PrintT("SCENARIO " \o ToJson([score |-> score, groups |-> G]))
=============================================================================
