---------------------------- MODULE CrossValMC ----------------------------
(* All ways of dealing N respondents to F folds; combinations are fitted in  *)
(* any order, as parallel workers do; each fit starts from the same model.   *)
EXTENDS CrossVal, TLC, Json
CONSTANTS N, F, V
VARIABLES fold, done, heldout
vars == <<fold, done, heldout>>
Combos == Grid(<<[a \in 1..V |-> a], [b \in 1..2 |-> b]>>)
C == 1..Len(Combos)
Dealt(f) == Even([k \in 1..F |-> Cardinality(Held(f, k))])
Init == fold \in {f \in [1..N -> 1..F] : Dealt(f)} /\ done = {} /\ heldout = [c \in C |-> [i \in 1..N |-> 0]]
Fit(c, f) == /\ <<c, f>> \notin done
             /\ \A g \in 1..(f - 1) : <<c, g>> \in done          \* a worker goes through the folds in turn
             /\ done' = done \cup {<<c, f>>}
             /\ heldout' = [heldout EXCEPT ![c] = [i \in 1..N |-> @[i] + (IF i \in Held(fold, f) THEN 1 ELSE 0)]]
             /\ UNCHANGED fold
Next == \E c \in C, f \in 1..F : Fit(c, f)
Spec == Init /\ [][Next]_vars
OnceAtMost == \A c \in C, i \in 1..N : heldout[c][i] <= 1
NeverSeen == \A f \in 1..F : Held(fold, f) \cap Train(fold, f) = {} /\ Held(fold, f) \cup Train(fold, f) = 1..N
AllOnceWhenDone == (done = C \X (1..F)) => \A c \in C, i \in 1..N : heldout[c][i] = 1
GridComplete == Len(Combos) = V * 2 /\ Cardinality({Combos[c] : c \in C}) = V * 2
NoEmptyFold == N >= F => \A f \in 1..F : Held(fold, f) # {}
VigorishOK == LET ms == <<"-1/2", "-3/10", "-1/10">>
              IN \A a, b \in 1..3 : /\ (a = b => RClose(Vigorish(ms[a], ms[b]), 0, "1/1000000", 0))
                                    /\ (a < b => RLt(0, Vigorish(ms[a], ms[b])))
                                    /\ RClose(Entropy(Coin(ms[a])), ms[a], "1/1000000", 0)
CutOK == \A k \in 0..4 : Cut(N, RDiv(k, 4)) <= N /\ (k > 0 => Cut(N, RDiv(k, 4)) >= Cut(N, RDiv(k - 1, 4)))
Emit == (done = {}) => PrintT("SCENARIO " \o ToJson([fold |-> fold, folds |-> F]))
ASSUME VigorishOK
=============================================================================
