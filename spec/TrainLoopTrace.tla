--------------------------- MODULE TrainLoopTrace ---------------------------
(* Recorded training runs checked step by step against TrainLoop.            *)
EXTENDS TrainLoop, TraceBase
S0 == [p |-> [maxEpochs |-> 0], alg |-> "", n |-> 0, s |-> [stop |-> "none"], seen |-> {}, c1 |-> "0", x1 |-> "0"]

\* MML turns a per-respondent log-likelihood of -c into the loss n * (c + constant).
Affine(t, e) == t.alg # "mml" \/ t.s.it = 0 \/
                RClose(RSub(e.x, t.x1), RMul(t.n, RSub(e.c, t.c1)), "1/1000", "1/100000")

\* The learning rate after so many cuts.
Lowered(e, cuts) == LET f[i \in 0..cuts] == IF i = 0 THEN e.lr0 ELSE RMul(f[i - 1], e.factor) IN f[cuts]

Step(t, e) ==
  CASE Raised(e) -> [st |-> t, bad |-> {"raised"}]
    [] e.op = "start" -> [st |-> [p |-> e.p, alg |-> e.alg, n |-> e.n, s |-> Init0(e.p), seen |-> {}, c1 |-> "0", x1 |-> "0"], bad |-> {}]
    [] e.op = "iter" ->
        LET s1 == IF t.s.stop = "" THEN Iterate(t.p, t.s, e.x) ELSE t.s
            ids == {e.ids[i] : i \in 1..Len(e.ids)}
            seen == t.seen \cup ids
            newEpoch == s1.ep > t.s.ep
        IN [st |-> [t EXCEPT !.s = s1, !.seen = IF newEpoch THEN {} ELSE seen,
                             !.c1 = IF t.s.it = 0 THEN e.c ELSE @, !.x1 = IF t.s.it = 0 THEN e.x ELSE @],
            bad |-> C("iterated_after_training_should_have_stopped", t.s.stop = "")
               \cup C("loss_uses_log_likelihood", Affine(t, e))
               \cup C("respondent_used_once_per_epoch", e.named => (Cardinality(ids) = Len(e.ids) /\ ids \cap t.seen = {}))
               \cup C("every_respondent_used_each_epoch", (e.named /\ t.s.stop = "" /\ newEpoch) => seen = 0..(t.n - 1))
               \cup C("learning_rate_of_the_schedule", (~RIsNaN(e.step)) => RClose(e.step, Lowered(e, t.s.cuts), "0", "1/1000"))
               \cup C("latent_rows_match_data_rows", REq(e.aligned, "0"))
               \cup C("missing_mask_matches_rows", e.mask_ok)
               \cup C("responses_unchanged", e.data_ok)]
    [] e.op = "end" ->
        LET s == t.s
            best == Restored(s)
            stopped == s.stop
        IN [st |-> t,
            bad |-> C("stopped_too_early", stopped # "")
               \cup C("history", RSeqClose(e.hist, s.hist, "1/1000000", "1/1000000"))
               \cup C("best_state_restored_model", e.tick = (IF s.bestIt > 0 THEN s.bestIt ELSE e.calls) /\ (s.bestIt > 0 => e.p_at = best))
               \cup C("best_state_restored_encoder", (e.enc_at >= 0 /\ s.bestIt > 0) => e.enc_at = best)
               \cup C("best_state_restored_latent_scores", (e.theta_at >= 0 /\ s.bestIt > 0) => e.theta_at = best)
               \cup C("training_latent_scores", RLe(e.theta_err, "1/100000"))
               \cup C("optimizer_state", s.bestIt > 0 => RClose(e.lr, Lowered(e, s.bestCuts), "0", "1/1000000"))
               \cup C("left_in_evaluation_mode", e.eval_mode /\ e.encoder_eval)
               \cup C("algorithm_attached_to_model", e.attached)
               \cup C("training_data_accumulated", e.train_n = e.total_n)]
    [] e.op = "scaled" ->     \* the training of a scale transformation: the same schedule, nothing else is kept
        [st |-> t, bad |-> C("stopped_too_early", t.s.stop # "")
                      \cup C("left_in_evaluation_mode", e.eval_mode)]
    [] OTHER -> [st |-> t, bad |-> {"unknown_event"}]

TraceInit == l = 1 /\ st = S0
TraceNext == /\ l <= Len(Trace)
             /\ LET e == Trace[l]
                    r == Step(IF e.first THEN S0 ELSE st, e)
                IN /\ st' = r.st
                   /\ l' = l + 1
                   /\ (r.bad = {} \/ PrintT(<<"FAIL", l, e.op, r.bad>>))
TraceSpec == TraceInit /\ [][TraceNext]_<<l, st>>
TraceAccepted ==
  /\ PrintT(<<"ACCEPTED", TLCGet("stats").diameter - 1>>)
  /\ \A o \in {Trace[i].op : i \in 1..Len(Trace)} : PrintT(<<"STAT", o, Cardinality({i \in 1..Len(Trace) : Trace[i].op = o})>>)
=============================================================================
