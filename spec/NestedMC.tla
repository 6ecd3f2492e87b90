------------------------------ MODULE NestedMC ------------------------------
(* Every key position for every vector of option counts up to the bounds.    *)
(* The map from (incorrect option in order) to its original position skips   *)
(* exactly the key; the nested distribution is well formed for each of them. *)
EXTENDS Models, TLC, Json
CONSTANTS MaxJ, MaxM
VARIABLES s
Init == \E J \in 1..MaxJ : s \in {[cats |-> c, key |-> k] : c \in [1..J -> 2..MaxM], k \in [1..J -> 0..(MaxM - 1)]}
Ok == \A j \in 1..Len(s.cats) : s.key[j] < s.cats[j]
Next == UNCHANGED s
Spec == Init /\ [][Next]_s
Cond(M) == RForce([k \in 1..(M - 1) |-> RDiv(2 * k, M * (M - 1))])
Pos(key, k) == IF k - 1 < key THEN k - 1 ELSE k
WellFormed == Ok => \A j \in 1..Len(s.cats) :
   LET M == s.cats[j]
       p == Nested(<<"1/4", "3/4">>, Cond(M), s.key[j], M)
   IN /\ IsDistribution(p, "1/1000000000")
      /\ REq(p[s.key[j] + 1], "3/4")
      /\ {Pos(s.key[j], k) : k \in 1..(M - 1)} = (0..(M - 1)) \ {s.key[j]}
      /\ \A k \in 1..(M - 1) : REq(p[Pos(s.key[j], k) + 1], RDiv(Cond(M)[k], 4))
Emit == Ok => PrintT("SCENARIO " \o ToJson(s))
=============================================================================
