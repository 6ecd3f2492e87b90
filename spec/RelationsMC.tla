---------------------------- MODULE RelationsMC ----------------------------
(* Item by latent declaration matrices: which (item, latent variable) pairs  *)
(* may carry an effect.  Every admissible matrix up to the bounds is visited;*)
(* a linear predictor with generic weights on the declared pairs is shown to *)
(* depend on exactly the declared latent variables.  Each matrix is printed  *)
(* as a scenario that is replayed on every model class.                      *)
EXTENDS Models, TLC, Json
CONSTANTS MaxJ, MaxV
VARIABLES rel
Init == \E J \in 1..MaxJ, V \in 2..MaxV : rel \in [1..J -> {r \in [1..V -> BOOLEAN] : \E v \in 1..V : r[v]}]
Next == UNCHANGED rel
Spec == Init /\ [][Next]_rel
J == Len(rel)
V == Len(rel[1])
W(j, v) == IF rel[j][v] THEN RDiv(2 * v + 3 * j, 7) ELSE 0
P(j, th) == GPC([v \in 1..V |-> W(j, v)], <<0, "1/3", "-1/2">>, 3, th)
T0 == [v \in 1..V |-> "1/5"]
Exact == \A j \in 1..J : \A v \in 1..V :
           RSeqClose(P(j, T0), P(j, [T0 EXCEPT ![v] = "11/10"]), "1/1000000000", 0) <=> ~rel[j][v]
\* parameters: one weight per declared pair
Emit == PrintT("SCENARIO " \o ToJson([rel |-> rel]))
=============================================================================
