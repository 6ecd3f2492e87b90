----------------------------- MODULE TrainLoop -----------------------------
(* Training control shared by the estimation algorithms: iterations over     *)
(* epochs and batches, evaluation of the loss, learning-rate cuts after      *)
(* stagnation, stopping, and restoring the best state seen.                  *)
(*                                                                            *)
(* p (parameters of one run):                                                 *)
(*   kind     "interval" (AE, VAE: evaluate every `interval` iterations on    *)
(*            the mean of the last `interval` batch losses),                  *)
(*            "epoch"/"batch" (MML / JML: evaluate every iteration)           *)
(*   interval, patience, limit (cuts before stopping), maxEpochs              *)
(*   batches  number of usable batches per epoch                              *)
(*   thr      relative improvement threshold of the plateau rule              *)
(* s (state):                                                                 *)
(*   it iterations done, ep complete epochs, pos batches done in this epoch,  *)
(*   window recent losses, ref plateau reference, bad evaluations without     *)
(*   improvement, cuts, best/bestIt/bestCuts the best evaluation, hist the    *)
(*   evaluations so far, stop "" or the reason, stopCuts                      *)
EXTENDS Rat, FiniteSets

Init0(p) == [it |-> 0, ep |-> 0, pos |-> 0, window |-> <<>>, ref |-> "inf", bad |-> 0, cuts |-> 0,
             best |-> "inf", bestIt |-> 0, bestCuts |-> 0, hist |-> <<>>,
             stop |-> IF p.maxEpochs = 0 THEN "epochs" ELSE ""]

IsEval(p, it) == p.kind # "interval" \/ (it % p.interval = 0 /\ it # 1)

Push(w, x, n) == LET v == Append(w, x) IN IF Len(v) > n THEN Tail(v) ELSE v

\* The plateau rule: an evaluation improves when it is below the reference by the relative threshold.
Improves(p, s, x) == RLt(x, RMul(s.ref, RSub(1, p.thr)))

Evaluate(p, s, x) ==
  LET imp  == Improves(p, s, x)
      bad1 == IF imp THEN 0 ELSE s.bad + 1
      cut  == bad1 > p.patience
      cuts == IF cut THEN s.cuts + 1 ELSE s.cuts
      better == RLt(x, s.best)
  IN [s EXCEPT !.ref = IF imp THEN x ELSE @, !.bad = IF cut THEN 0 ELSE bad1, !.cuts = cuts,
               !.hist = Append(@, x), !.best = IF better THEN x ELSE @,
               !.bestIt = IF better THEN s.it ELSE @, !.bestCuts = IF better THEN cuts ELSE @,
               !.stop = IF cuts >= p.limit THEN "cuts" ELSE @]

EndBatch(p, s) ==
  LET pos == s.pos + 1
      wrap == pos >= p.batches
      ep == IF wrap THEN s.ep + 1 ELSE s.ep
  IN [s EXCEPT !.pos = IF wrap THEN 0 ELSE pos, !.ep = ep,
               !.stop = IF @ = "" /\ wrap /\ ep >= p.maxEpochs THEN "epochs" ELSE @]

\* One iteration with batch loss x.
Iterate(p, s, x) ==
  IF p.kind = "interval" /\ RIsNaN(x) THEN [s EXCEPT !.stop = "nan"]
  ELSE LET s1 == [s EXCEPT !.it = @ + 1, !.window = IF p.kind = "interval" THEN Push(@, x, p.interval) ELSE <<x>>]
           s2 == IF IsEval(p, s1.it) THEN Evaluate(p, s1, RDiv(RSum(s1.window), Len(s1.window))) ELSE s1
       IN EndBatch(p, s2)

\* The iteration after which the returned state was current; with no finite evaluation the last one stands.
Restored(s) == IF s.bestIt > 0 THEN s.bestIt ELSE s.it

\* ------------------------------------------------------------ properties of the design
BestIsMinimum(s) == /\ \A i \in 1..Len(s.hist) : ~RLt(s.hist[i], s.best)
                    /\ s.bestIt > 0 => \E i \in 1..Len(s.hist) : s.hist[i] = s.best
FirstBest(p, s) == (s.bestIt > 0 /\ p.kind # "interval") =>
                     /\ REq(s.hist[s.bestIt], s.best)
                     /\ \A i \in 1..(s.bestIt - 1) : RLt(s.best, s.hist[i]) \/ ~RIsNum(s.hist[i])
CutsBounded(p, s) == s.cuts <= p.limit /\ s.cuts * (p.patience + 1) <= Len(s.hist)
HistLength(p, s) == Len(s.hist) = Cardinality({i \in 1..s.it : IsEval(p, i)})
EpochBound(p, s) == s.ep <= p.maxEpochs /\ s.it <= p.maxEpochs * p.batches
=============================================================================
