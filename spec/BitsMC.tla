------------------------------- MODULE BitsMC -------------------------------
(* A walker crosses every short path of response distributions of two items.  *)
EXTENDS Bits, TLC, Json
CONSTANTS MaxLen, Deep
VARIABLES path, bits
D2 == {<<"0", "1">>, <<"1/2", "1/2">>, <<"3/4", "1/4">>, <<"1/4", "3/4">>}
D3 == {<<"1", "0", "0">>, <<"1/4", "1/2", "1/4">>, <<"1/2", "1/2", "0">>} \cup (IF Deep = 1 THEN {<<"1/4", "1/4", "1/2">>} ELSE {})
Rows == {<<a, b>> : a \in D2, b \in D3}
Init == \E r \in Rows : path = <<r>> /\ bits = <<"0", "0">>
Move(r) == /\ Len(path) < MaxLen
           /\ path' = Append(path, r)
           /\ bits' = [j \in 1..2 |-> RAdd(bits[j], Change(Entropies(path[Len(path)]), Entropies(r))[j])]
Next == \E r \in Rows : Move(r)
Spec == Init /\ [][Next]_<<path, bits>>
Hs == [i \in 1..Len(path) |-> Entropies(path[i])]
T == "1/1000000000"
Within(a, b) == RLe(a, RAdd(b, T))
WalkCounts == RSame(Walk(Hs), bits, T, 0)
NeverNegative == \A j \in 1..2 : RLe(0, bits[j])
AtLeastTheDifference == \A j \in 1..2 : Within(Change(Hs[1], Hs[Len(Hs)])[j], bits[j])
AtMostPerStep == \A j \in 1..2 : RLe(bits[j], 2 * (Len(path) - 1))
BothWays == RSame(Walk(Reverse(Hs)), bits, T, 0)
Additive == LET t(items) == Totals(Hs, items)[Len(Hs)] IN RClose(t(<<0, 1>>), RAdd(t(<<0>>), t(<<1>>)), T, 0)
Increasing == LET t == Totals(Hs, <<0, 1>>) IN REq(t[1], 0) /\ \A i \in 1..(Len(t) - 1) : RLe(t[i], t[i + 1])
Splits == \A i \in 1..Len(Hs) : RClose(RSum(Walk(Hs)), RAdd(RSum(Walk(SubSeq(Hs, 1, i))), RSum(Walk(SubSeq(Hs, i, Len(Hs))))), T, 0)
ShortCut == \A i \in 2..(Len(Hs) - 1) : Within(RSum(Walk(SubSeq(Hs, 1, i - 1) \o SubSeq(Hs, i + 1, Len(Hs)))), RSum(Walk(Hs)))
Emit == Len(path) >= 3 => PrintT("SCENARIO " \o ToJson([path |-> path]))
=============================================================================
