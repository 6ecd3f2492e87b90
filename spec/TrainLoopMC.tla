---------------------------- MODULE TrainLoopMC ----------------------------
(* Exhaustive exploration of TrainLoop over all loss sequences drawn from    *)
(* Losses, for every configuration in Configs; every terminal state is       *)
(* printed as a scenario that the harness replays against the real library.  *)
EXTENDS TrainLoop, TLC, Json
CONSTANTS Losses, MaxLen, Kinds
VARIABLES p, s, script
Configs == {[kind |-> k, interval |-> i, patience |-> pa, limit |-> li, maxEpochs |-> me, batches |-> b, thr |-> "1/10000"] :
              k \in Kinds, i \in {1, 2, 3}, pa \in {0, 1, 2}, li \in {1, 2}, me \in {1, 3, 6}, b \in {1, 2, 3}}
Sane(c) == /\ (c.kind = "interval" => c.patience = 1)
           /\ (c.kind # "interval" => c.interval = 1)
           /\ (c.kind = "epoch" => c.batches = 1)
           /\ c.maxEpochs * c.batches <= MaxLen
Init == p \in {c \in Configs : Sane(c)} /\ s = Init0(p) /\ script = <<>>
Iter(x) == /\ s.stop = ""
           /\ s' = Iterate(p, s, x) /\ script' = Append(script, x) /\ UNCHANGED p
Next == \E x \in Losses : Iter(x)
Spec == Init /\ [][Next]_<<p, s, script>> /\ WF_<<p, s, script>>(Next)
Inv == BestIsMinimum(s) /\ FirstBest(p, s) /\ CutsBounded(p, s) /\ HistLength(p, s) /\ EpochBound(p, s)
\* Stopping is final and training always ends.
Ends == <>(s.stop # "")
NoneAfterStop == [][s.stop = ""]_<<p, s, script>>
Emit == s.stop # "" => PrintT("SCENARIO " \o ToJson([p |-> p, script |-> script, stop |-> s.stop,
                                                             best |-> IF s.bestIt = 0 THEN "none" ELSE IF s.bestIt = s.it THEN "last" ELSE IF s.bestIt = 1 THEN "first" ELSE "middle"]))
=============================================================================
