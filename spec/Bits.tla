-------------------------------- MODULE Bits --------------------------------
(* Bit scores: a walk from a starting point along a latent path, counting for *)
(* every item how many bits its uncertainty (entropy) changes on the way.     *)
(* A path is a sequence of rows, a row holds one distribution per item.       *)
EXTENDS Rat, SequencesExt, FiniteSets
Entropy(p) == RNeg(RDiv(RSum([k \in 1..Len(p) |-> IF RLe(p[k], "0") THEN "0" ELSE RMul(p[k], RLn(p[k]))]), RLn(2)))
Entropies(row) == RForce([j \in 1..Len(row) |-> RDbl(Entropy(row[j]))])
\* change of every item between two rows of entropies
Change(h1, h2) == [j \in 1..Len(h1) |-> RAbs(RSub(h2[j], h1[j]))]
\* bits of each item after walking the whole path
Walk(hs) == FoldLeft(LAMBDA a, i : [j \in 1..Len(a) |-> RAdd(a[j], Change(hs[i - 1], hs[i])[j])],
                     [j \in 1..Len(hs[1]) |-> "0"], [i \in 1..(Len(hs) - 1) |-> i + 1])
Chosen(items, b) == RSum([i \in 1..Len(items) |-> b[items[i] + 1]])
\* totals (over the chosen items) at every point of the path
Totals(hs, items) == FoldLeft(LAMBDA a, i : Append(a, RForce(RDbl(RAdd(a[Len(a)], Chosen(items, Change(hs[i - 1], hs[i])))))),
                              <<"0">>, [i \in 1..(Len(hs) - 1) |-> i + 1])
Mean(p, pts) == RDot(p, pts)
\* direction in which the expected total score grows
Direction(lo, hi, pts) == IF RLt(RSum([j \in 1..Len(pts) |-> Mean(hi[j], pts[j])]), RSum([j \in 1..Len(pts) |-> Mean(lo[j], pts[j])])) THEN -1 ELSE 1
=============================================================================
