----------------------------- MODULE Objective -----------------------------
(* The loss each fitting algorithm documents, from the response              *)
(* probabilities p of the model at the latent values used, the responses r   *)
(* (-1 missing) and, for the variational algorithm, the mean and log         *)
(* variance the encoder gives.                                               *)
EXTENDS Scoring
\* joint likelihood and reconstruction: P[i] are the probabilities at respondent i's latent values
JointLoss(P, x) == RNeg(RSum([i \in 1..Len(x) |-> LogLik(P[i], x[i])]))
ReconLoss(P, x) == RDiv(JointLoss(P, x), Len(x))
\* marginal likelihood: log of the likelihood averaged over latent points with weights W
LogMean(W, P, r) == RLn(RDiv(RSum(Posterior(W, P, r)), RSum(W)))
MarginalLoss(W, P, x) == RNeg(RSum([i \in 1..Len(x) |-> LogMean(W, P, x[i])]))
\* variational: KL divergence of N(m, exp(l)) from the standard normal
KL(m, l) == RMul("1/2", RSum([v \in 1..Len(m) |-> RSub(RAdd(RMul(m[v], m[v]), RExp(l[v])), RAdd(1, l[v]))]))
Elbo(p, r, m, l, beta) == RSub(LogLik(p, r), RMul(beta, KL(m, l)))
\* log q(t | m, l) - log p(t) of a sample t
LogRatio(t, m, l) == RSum([v \in 1..Len(t) |->
    LET d == RSub(t[v], m[v]) IN RMul("1/2", RSub(RMul(t[v], t[v]), RAdd(l[v], RDiv(RMul(d, d), RExp(l[v])))))])
\* importance weighted bound of one respondent from samples ts[k] with probabilities ps[k]
LogMeanExp(s) == LET m == FoldLeft(LAMBDA a, b : RMax2(a, b), s[1], s)
                 IN RAdd(m, RLn(RDiv(RSum([k \in 1..Len(s) |-> RExp(RSub(s[k], m))]), Len(s))))
Iwae(ps, ts, r, m, l, beta) == LogMeanExp([k \in 1..Len(ts) |-> RDbl(RSub(LogLik(ps[k], r), RMul(beta, LogRatio(ts[k], m, l))))])
MeanLoss(b) == RNeg(RDiv(RSum(b), Len(b)))
Anneal(on, t, limit) == IF ~on THEN 1 ELSE RMin2(1, RDiv(t, limit))
=============================================================================
