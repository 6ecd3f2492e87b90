------------------------------ MODULE Ranking ------------------------------
(* Positions in a reference sample (a sequence of numbers) and values lying   *)
(* far outside its quartiles.                                                 *)
EXTENDS Rat, SequencesExt, FiniteSets
Count(s, P(_)) == FoldLeft(LAMBDA a, v : IF P(v) THEN a + 1 ELSE a, 0, s)
\* average rank of the members of the sample equal to v
AvgRank(s, v) == LET below == Count(s, LAMBDA w : RLt(w, v))
                     equal == Count(s, LAMBDA w : REq(w, v))
                 IN RAdd(below, RDiv(equal + 1, 2))
Dist(a, b) == RAbs(RSub(a, b))
Nearest(s, v) == LET d == FoldLeft(LAMBDA a, w : RMin2(a, Dist(w, v)), Dist(s[1], v), s)
                 IN {i \in 1..Len(s) : RLe(Dist(s[i], v), d)}
\* possible positions of v (two when it lies exactly between neighbours)
Positions(s, v, slack) == LET d == FoldLeft(LAMBDA a, w : RMin2(a, Dist(w, v)), Dist(s[1], v), s)
                          IN {RDiv(AvgRank(s, s[i]), Len(s) + 1) : i \in {i \in 1..Len(s) : RLe(Dist(s[i], v), RAdd(d, slack))}}
\* linearly interpolated quantile of the sorted sample
Quantile(sorted, q) == LET h == RMul(Len(sorted) - 1, q)
                           a == RToInt(RFloor(h))
                           b == IF a + 1 >= Len(sorted) THEN a ELSE a + 1
                       IN RAdd(sorted[a + 1], RMul(RSub(h, a), RSub(sorted[b + 1], sorted[a + 1])))
Bounds(s, factor) == LET t == RSort(s)
                         q1 == Quantile(t, "1/4")
                         q3 == Quantile(t, "3/4")
                         w == RMul(factor, RSub(q3, q1))
                     IN <<RSub(q1, w), RAdd(q3, w)>>
Flag(b, v, lower, upper) == (lower /\ RLt(v, b[1])) \/ (upper /\ RLt(b[2], v))
Kept(b, s) == SelectSeq(s, LAMBDA v : ~Flag(b, v, TRUE, TRUE))
Smallest(s) == FoldLeft(LAMBDA a, v : RMin2(a, v), s[1], s)
Largest(s) == FoldLeft(LAMBDA a, v : RMax2(a, v), s[1], s)
\* cumulative distributions a rank scale can be mapped to
Cdf(d, x) == CASE d.kind = "normal" -> RPhi(RDiv(RSub(x, d.loc), d.scale))
               [] d.kind = "uniform" -> RDiv(RSub(x, d.loc), d.scale)
               [] d.kind = "laplace" -> LET z == RDiv(RSub(x, d.loc), d.scale)
                                        IN IF RLt(z, 0) THEN RDiv(RExp(z), 2) ELSE RSub(1, RDiv(RExp(RNeg(z)), 2))
               [] d.kind = "gumbel" -> RExp(RNeg(RExp(RNeg(RDiv(RSub(x, d.loc), d.scale)))))
=============================================================================
