----------------------------- MODULE RankingMC -----------------------------
(* A reference sample grows one member at a time.                             *)
EXTENDS Ranking, TLC, Json
CONSTANTS MaxN, Top
VARIABLES s
Init == \E v \in 0..Top : s = <<v>>
Join(v) == Len(s) < MaxN /\ s' = Append(s, v)
Next == \E v \in 0..Top : Join(v)
Spec == Init /\ [][Next]_s
Grid == [k \in 1..(2 * Top + 5) |-> RDiv(k - 3, 2)]       \* -1, -1/2, ... Top + 1
Lo(v) == FoldLeft(LAMBDA a, p : RMin2(a, p), 1, SetToSeq(Positions(s, v, 0)))
Hi(v) == FoldLeft(LAMBDA a, p : RMax2(a, p), 0, SetToSeq(Positions(s, v, 0)))
Monotone == \A a \in 1..(Len(Grid) - 1) : RLe(Hi(Grid[a]), Lo(Grid[a + 1])) \/ RLe(Lo(Grid[a]), Lo(Grid[a + 1]))
Inside == \A a \in 1..Len(Grid) : RLt(0, Lo(Grid[a])) /\ RLt(Hi(Grid[a]), 1)
RanksAddUp == REq(RSum([i \in 1..Len(s) |-> AvgRank(s, s[i])]), RDiv(Len(s) * (Len(s) + 1), 2))
EndsTakeNearest == REq(Lo(RNeg(100)), Lo(Smallest(s))) /\ REq(Hi(100), Hi(Largest(s)))
B == Bounds(s, 1)
FlagsMonotone == \A a \in 1..(Len(Grid) - 1) : /\ Flag(B, Grid[a], FALSE, TRUE) => Flag(B, Grid[a + 1], FALSE, TRUE)
                                               /\ Flag(B, Grid[a + 1], TRUE, FALSE) => Flag(B, Grid[a], TRUE, FALSE)
WiderKeepsMore == \A a \in 1..Len(Grid) : Flag(Bounds(s, 2), Grid[a], TRUE, TRUE) => Flag(B, Grid[a], TRUE, TRUE)
SomeKept == Len(Kept(B, s)) > 0
MiddleKept == ~Flag(B, Quantile(RSort(s), "1/2"), TRUE, TRUE)
Order == \A t \in {Reverse(s)} : Bounds(t, 1) = B /\ \A i \in 1..Len(s) : REq(AvgRank(t, s[i]), AvgRank(s, s[i]))
Emit == PrintT("SCENARIO " \o ToJson([s |-> s]))
=============================================================================
