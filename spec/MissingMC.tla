----------------------------- MODULE MissingMC -----------------------------
(* All data sets of the given size, all codings of the missing cells and all *)
(* ways of leaving out unobserved respondents and items: the statistics of   *)
(* FitStats on what is presented are the projection of the ones on all data. *)
EXTENDS Missing, TLC, Json
CONSTANTS N, J, K
VARIABLES x, cod, rows, items
vars == <<x, cod, rows, items>>
P == [i \in 1..N |-> [j \in 1..J |-> LET w == [k \in 1..K |-> 1 + ((3 * i + 5 * j + 7 * k) % 11)] IN [k \in 1..K |-> RDiv(w[k], RSum(w))]]]
Without(s, a) == SelectSeq(s, LAMBDA b : b # a)
Init == /\ x \in [1..N -> [1..J -> (-1)..(K - 1)]]
        /\ Observed(x) # {}
        /\ cod = {}                            \* cells coded -1; the other missing cells are NaN
        /\ rows = [i \in 1..N |-> i] /\ items = [j \in 1..J |-> j]
Recode(i, j) == /\ x[i][j] = -1 /\ <<i, j>> \notin cod
                /\ cod' = cod \cup {<<i, j>>} /\ UNCHANGED <<x, rows, items>>
LeaveRow(a) == /\ ~RowSeen(x, rows[a]) /\ rows' = Without(rows, rows[a]) /\ UNCHANGED <<x, cod, items>>
LeaveItem(a) == /\ ~ItemSeen(x, items[a]) /\ items' = Without(items, items[a]) /\ UNCHANGED <<x, cod, rows>>
Next == \/ \E i \in 1..N, j \in 1..J : Recode(i, j)
        \/ \E a \in 1..Len(rows) : LeaveRow(a)
        \/ \E a \in 1..Len(items) : LeaveItem(a)
Spec == Init /\ [][Next]_vars
x2 == Kept2D(x, rows, items)
P2 == Kept2D(P, rows, items)
Shape(level) == IF level = "item" THEN "item" ELSE IF level = "respondent" THEN "resp" ELSE IF level = "none" THEN "cell" ELSE "all"
Projected == \A level \in {"none", "item", "respondent", "all"} :
  /\ RSame(MeanAt(Residuals(P2, x2, <<>>), level), Project(Shape(level), MeanAt(Residuals(P, x, <<>>), level), rows, items), 0, 0)
  /\ RSame(MeanAt(Hits(P2, x2), level), Project(Shape(level), MeanAt(Hits(P, x), level), rows, items), 0, 0)
  /\ RSame(SumAt(LogLik(P2, x2), level), Project(Shape(level), SumAt(LogLik(P, x), level), rows, items), "1/100000", 0)
FitProjected == \A level \in {"item", "respondent"} :
  /\ RSame(Infit(P2, x2, <<>>, level), Project(Shape(level), Infit(P, x, <<>>, level), rows, items), 0, 0)
  /\ RSame(Outfit(P2, x2, <<>>, level), Project(Shape(level), Outfit(P, x, <<>>, level), rows, items), 0, 0)
\* nothing observed is ever left out
NothingLost == \A c \in Observed(x) : (\E a \in 1..Len(rows) : rows[a] = c[1]) /\ (\E b \in 1..Len(items) : items[b] = c[2])
Emit == (cod # {} \/ Len(rows) < N \/ Len(items) < J) =>
          PrintT("SCENARIO " \o ToJson([x |-> x, minus |-> cod, rows |-> rows, items |-> items]))
=============================================================================
