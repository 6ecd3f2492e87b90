------------------------------- MODULE MixMC -------------------------------
(* Partition of a test into consecutive blocks of items, one per submodel.   *)
(* State: the block sizes and how many items have been placed.  Placing the  *)
(* blocks in the given order puts every item of every block at exactly one   *)
(* position, without gaps.                                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxParts, MaxSize
VARIABLES sizes, placed, owner
Init == sizes \in UNION {[1..p -> 1..MaxSize] : p \in 1..MaxParts} /\ placed = 0 /\ owner = <<>>
Place == /\ placed < Len(sizes)
         /\ owner' = owner \o [j \in 1..sizes[placed + 1] |-> <<placed + 1, j>>]
         /\ placed' = placed + 1
         /\ UNCHANGED sizes
Spec == Init /\ [][Place]_<<sizes, placed, owner>>
Total == LET f[i \in 0..Len(sizes)] == IF i = 0 THEN 0 ELSE f[i - 1] + sizes[i] IN f
NoOverlap == Len(owner) = Total[placed] /\ Cardinality({owner[i] : i \in 1..Len(owner)}) = Len(owner)
InOrder == \A i, j \in 1..Len(owner) : i < j => owner[i][1] < owner[j][1] \/ (owner[i][1] = owner[j][1] /\ owner[i][2] < owner[j][2])
Offsets == \A p \in 1..placed : \A j \in 1..sizes[p] : owner[Total[p - 1] + j] = <<p, j>>
Emit == (placed = Len(sizes)) => PrintT("SCENARIO " \o ToJson([sizes |-> sizes]))
=============================================================================
