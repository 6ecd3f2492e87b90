------------------------------ MODULE DataSets ------------------------------
(* The data sets the library ships or downloads.                             *)
(*                                                                           *)
(* Part 1: the downloaded questionnaire.  A row of the published file has    *)
(* Items answers (1..Top, 0 = missed, Empty = no value), Items response times   *)
(* (milliseconds), and the number of submissions from its address.           *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
Empty == 999999999
Missed == 0 - 1
Keep(row, longest) ==
  /\ \A i \in DOMAIN row.times : row.times[i] = Empty \/ (row.times[i] >= 0 /\ row.times[i] <= longest)
  /\ row.ipc = 1
  /\ \A i \in DOMAIN row.answers : row.answers[i] # Empty
  /\ \E i \in DOMAIN row.answers : row.answers[i] # 0
\* answers are coded from zero, missed ones as missing, items worded the other way round are turned
Code(row, reversed, top) ==
  [i \in DOMAIN row.answers |-> IF row.answers[i] = 0 THEN Missed ELSE IF i \in reversed THEN top - row.answers[i] ELSE row.answers[i] - 1]
Processed(rows, reversed, top, longest) ==
  LET kept == SelectSeq(rows, LAMBDA r : Keep(r, longest)) IN [i \in 1..Len(kept) |-> Code(kept[i], reversed, top)]
\* columns (1-based) of the items EXT2 4 6 8 10, EST2 4, AGR1 3 5 7, CSN2 4 6 8, OPN2 4 6 in the order EXT, EST, AGR, CSN, OPN
BigFiveReversed == {2, 4, 6, 8, 10} \cup {12, 14} \cup {21, 23, 25, 27} \cup {32, 34, 36, 38} \cup {42, 44, 46}

(* Part 2: the local copy.  Loading looks for the copy; without one it       *)
(* downloads, prepares and stores one.  A load can fail at any point, and    *)
(* several can run at once.  The copy is stored in one step.                 *)
NoCopy == 0
\* a loader: at = where it is; got = version of the published file it holds; result = version it returned
Idle == [at |-> "idle", got |-> NoCopy, result |-> NoCopy]
Begin(w, copy) == IF copy # NoCopy THEN [at |-> "done", got |-> copy, result |-> copy] ELSE [at |-> "download", got |-> NoCopy, result |-> NoCopy]
Fetch(w, published) == [w EXCEPT !.at = "store", !.got = published]
Finish(w) == [w EXCEPT !.at = "done", !.result = w.got]
Fail(w) == Idle
=============================================================================
