----------------------------- MODULE FitStatsMC -----------------------------
(* Responses of N respondents to J items arrive one by one, in any order;    *)
(* cells that never arrive are missing.  Running totals kept per item, per   *)
(* respondent and overall must always equal the batch definitions of         *)
(* FitStats on the cells seen so far, and the statistics obey their bounds.  *)
EXTENDS FitStats, TLC, Json
CONSTANTS N, J, K
VARIABLES x, nItem, nResp, hitItem, hitResp, sumLik
vars == <<x, nItem, nResp, hitItem, hitResp, sumLik>>
\* a fixed table: distinct probabilities that differ between respondents and items
P == [i \in 1..N |-> [j \in 1..J |-> LET w == [k \in 1..K |-> 1 + ((3 * i + 5 * j + 7 * k) % 11)] IN [k \in 1..K |-> RDiv(w[k], RSum(w))]]]
Init == /\ x = [i \in 1..N |-> [j \in 1..J |-> -1]]
        /\ nItem = [j \in 1..J |-> 0] /\ nResp = [i \in 1..N |-> 0]
        /\ hitItem = [j \in 1..J |-> 0] /\ hitResp = [i \in 1..N |-> 0]
        /\ sumLik = 0
Arrive(i, j, k) ==
  /\ x[i][j] = -1
  /\ x' = [x EXCEPT ![i][j] = k]
  /\ nItem' = [nItem EXCEPT ![j] = @ + 1]
  /\ nResp' = [nResp EXCEPT ![i] = @ + 1]
  /\ LET h == IF Predicted(P, i, j) = k THEN 1 ELSE 0 IN hitItem' = [hitItem EXCEPT ![j] = @ + h] /\ hitResp' = [hitResp EXCEPT ![i] = @ + h]
  /\ sumLik' = RAdd(sumLik, RLn(P[i][j][k + 1]))
Next == \E i \in 1..N, j \in 1..J, k \in 0..(K - 1) : Arrive(i, j, k)
Spec == Init /\ [][Next]_vars
AccuracyIsRunning ==
  LET T == Hits(P, x)
  IN /\ \A j \in 1..J : LET m == MeanAt(T, "item")[j] IN IF nItem[j] = 0 THEN m = "nan" ELSE REq(m, RDiv(hitItem[j], nItem[j]))
     /\ \A i \in 1..N : LET m == MeanAt(T, "respondent")[i] IN IF nResp[i] = 0 THEN m = "nan" ELSE REq(m, RDiv(hitResp[i], nResp[i]))
\* means at different levels combine with the numbers of observed responses as weights
LevelsAgree ==
  LET T == Residuals(P, x, <<>>)
      tot == NanSum(Flat(T))
      per(level, cnt, m) == RSum([a \in 1..m |-> IF cnt[a] = 0 THEN 0 ELSE RMul(cnt[a], MeanAt(T, level)[a])])
  IN REq(tot, per("item", nItem, J)) /\ REq(tot, per("respondent", nResp, N))
PredictionBounds == \A j \in 1..J : nItem[j] > 0 =>
  LET q == Prediction(P, x, K, j)
  IN /\ \A a \in 1..6 : RLe(0, q[a]) /\ RLe(q[a], 1)
     /\ REq(q[5], RDiv(hitItem[j], nItem[j]))         \* weighted recall is accuracy
FitIsNonNegative == \A j \in 1..J : nItem[j] > 0 => RLe(0, Infit(P, x, <<>>, "item")[j]) /\ RLe(0, Outfit(P, x, <<>>, "item")[j])
LikelihoodIsRunning == RClose(SumAt(LogLik(P, x), "all")[1], sumLik, "1/10000", 0)
Emit == PrintT("SCENARIO " \o ToJson([x |-> x]))
=============================================================================
