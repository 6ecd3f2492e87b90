---------------------------- MODULE ObjectiveMC ----------------------------
(* The bounds on a latent space of three points: a respondent answers items, *)
(* the encoder changes its mind about the respondent, more samples are       *)
(* taken, the weight of the divergence is annealed.                          *)
EXTENDS Objective, TLC, Json
CONSTANTS J, MaxK, Beta
VARIABLES r, q, k, t
vars == <<r, q, k, t>>
Z == 1..3
Prior == <<"1/4", "1/2", "1/4">>
Q == {<<"1/4", "1/2", "1/4">>, <<"1/2", "1/4", "1/4">>, <<"1/8", "1/8", "3/4">>}
P == [z \in Z |-> [j \in 1..J |-> LET a == RDiv(z + j, 5 + j) IN <<RSub(1, a), a>>]]
Init == r = [j \in 1..J |-> -1] /\ q \in Q /\ k = 1 /\ t = 0
Answer(j, a) == r[j] = -1 /\ r' = [r EXCEPT ![j] = a] /\ UNCHANGED <<q, k, t>>
Encode(q2) == q' = q2 /\ q2 # q /\ UNCHANGED <<r, k, t>>
Sample == k < MaxK /\ k' = k + 1 /\ UNCHANGED <<r, q, t>>
Iterate == t < Beta /\ t' = t + 1 /\ UNCHANGED <<r, q, k>>
Next == \/ \E j \in 1..J, a \in 0..1 : Answer(j, a)
        \/ \E q2 \in Q : Encode(q2)
        \/ Sample \/ Iterate
Spec == Init /\ [][Next]_vars
LogW(z, rr, qq, beta) == RDbl(RSub(LogLik(P[z], rr), RMul(beta, RLn(RDiv(qq[z], Prior[z])))))
Tuples(n) == [1..n -> Z]
Prob(z, qq) == FoldLeft(LAMBDA a, b : RMul(a, qq[z[b]]), 1, [b \in 1..Len(z) |-> b])
SetSum(S, f(_)) == RSum([i \in 1..Cardinality(S) |-> f(SetToSeq(S)[i])])
\* expected bound with n samples
Bound(n, rr, qq, beta) == SetSum(Tuples(n), LAMBDA z : RMul(Prob(z, qq), LogMeanExp([a \in 1..n |-> LogW(z[a], rr, qq, beta)])))
Marg(rr) == LogMean(Prior, P, rr)
Full == Anneal(TRUE, t, Beta)
Tol == "1/1000000000"
\* more samples tighten the bound, and it never exceeds the log marginal likelihood
Tightens == RLe(Bound(k, r, q, 1), RAdd(Marg(r), Tol)) /\ (k > 1 => RLe(Bound(k - 1, r, q, 1), RAdd(Bound(k, r, q, 1), Tol)))
\* one sample: expected log-likelihood minus the divergence
One == LET e == SetSum(Z, LAMBDA z : RMul(q[z], LogLik(P[z], r)))
           d == SetSum(Z, LAMBDA z : RMul(q[z], RLn(RDiv(q[z], Prior[z]))))
       IN RClose(Bound(1, r, q, Full), RSub(e, RMul(Full, d)), Tol, Tol)
NothingSeen == (\A j \in 1..J : r[j] = -1) => RClose(Marg(r), 0, Tol, 0)
AnswersLower == \A j \in 1..J : r[j] # -1 => RLe(Marg(r), RAdd(Marg([r EXCEPT ![j] = -1]), Tol))
AnnealOK == RLe(0, Full) /\ RLe(Full, 1) /\ (t = Beta => REq(Full, 1))
Emit == PrintT("SCENARIO " \o ToJson([r |-> r, k |-> k, t |-> t]))
=============================================================================
