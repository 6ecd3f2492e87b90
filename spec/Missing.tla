------------------------------ MODULE Missing ------------------------------
(* What a missing response may influence: nothing.                            *)
(*                                                                            *)
(* A data set is x[i][j] \in {-1} \cup 0..K (-1: missing) together with a     *)
(* coding cod[i][j] \in {"nan", "-1"} of its missing cells and the lists      *)
(* rows / items of the respondents and items that are (still) presented.      *)
(* Actions recode a missing cell, leave out a respondent or an item without   *)
(* any observed response.  A question is an answer function of the presented  *)
(* data; Project says what is left of an answer when rows and items are left  *)
(* out, by the shape of the answer:                                           *)
(*   "all" one answer, "resp" one per respondent, "item" one per item,        *)
(*   "cell" one per respondent and item                                       *)
EXTENDS FitStats

Observed(x) == {c \in Cells(x) : x[c[1]][c[2]] # -1}
RowSeen(x, i) == \E j \in 1..Len(x[1]) : x[i][j] # -1
ItemSeen(x, j) == \E i \in 1..Len(x) : x[i][j] # -1
Pick(s, idx) == [a \in 1..Len(idx) |-> s[idx[a]]]
Project(shape, v, rows, items) ==
  CASE shape = "all" -> v
    [] shape = "resp" -> Pick(v, rows)
    [] shape = "item" -> Pick(v, items)
    [] shape = "cell" -> [a \in 1..Len(rows) |-> Pick(v[rows[a]], items)]
Kept2D(x, rows, items) == [a \in 1..Len(rows) |-> Pick(x[rows[a]], items)]

=============================================================================
