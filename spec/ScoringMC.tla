----------------------------- MODULE ScoringMC -----------------------------
(* A respondent answers the items of a small test one at a time, in any      *)
(* order and possibly not all of them; the belief about the latent variable  *)
(* is updated after each answer.                                             *)
EXTENDS Scoring, TLC, Json
CONSTANTS J, K, Half
VARIABLES r, belief
vars == <<r, belief>>
G == [g \in 1..(2 * Half + 1) |-> <<g - 1 - Half>>]
\* category weights 2^((k-1)(t + shift_j)): partial credit items of increasing difficulty
W(g, j, k) == RPow2((k - 1) * (G[g][1] + 1 - j))
P == [g \in 1..Len(G) |-> [j \in 1..J |-> [k \in 1..K |-> RDiv(W(g, j, k), RSum([h \in 1..K |-> W(g, j, h)]))]]]
Prec == <<<<1>>>>
Prior == PriorW(G, Prec)
Init == r = [j \in 1..J |-> -1] /\ belief = Prior
Answer(j, k) == /\ r[j] = -1 /\ r' = [r EXCEPT ![j] = k]
                /\ belief' = RForce([g \in 1..Len(G) |-> RDbl(RMul(belief[g], P[g][j][k + 1]))])
Next == \E j \in 1..J, k \in 0..(K - 1) : Answer(j, k)
Spec == Init /\ [][Next]_vars
Score(q) == EAP(G, P, Prec, <<q>>)[1][1]
\* answers may be taken in any order, and together
OrderFree == RSame(<<Mean(belief, G, 1)>>, <<Score(r)>>, "1/1000000000", "1/1000000000")
NothingSeen == (\A j \in 1..J : r[j] = -1) => RClose(Score(r), 0, "1/1000000000", 0)
InRange == Between(Score(r), -Half, Half, 0)
\* a better answer never lowers the score
Monotone == \A j \in 1..J : r[j] \in 0..(K - 2) => RLe(Score(r), RAdd(Score([r EXCEPT ![j] = r[j] + 1]), "1/1000000000"))
\* scores of a group are the scores of its members, in their rows
Own == LET q == [j \in 1..J |-> IF r[j] = -1 THEN 0 ELSE -1]
       IN EAP(G, P, Prec, <<r, q>>) = <<EAP(G, P, Prec, <<r>>)[1], EAP(G, P, Prec, <<q>>)[1]>>
Emit == PrintT("SCENARIO " \o ToJson([r |-> r]))
=============================================================================
