---------------------------- MODULE LifecycleMC ----------------------------
(* All sessions of a bounded number of calls on two models of the same form  *)
(* and one file.  A question's answer is a function of what decides it, so   *)
(* the specification predicts an answer whenever the same question was       *)
(* already answered in a model state that agrees in those components: after  *)
(* saving and loading, after copying, and after any number of other calls.   *)
EXTENDS Lifecycle, TLC, Json
CONSTANTS Depth
M == {"A", "B"}
Other(m) == IF m = "A" THEN "B" ELSE "A"
VARIABLES models, file, hist, known, fresh, tensors, env
vars == <<models, file, hist, known, fresh, tensors, env>>
View == <<models, file, known, hist>>
None == [names |-> 0, params |-> 0, alg |-> 0, scales |-> 0]
Init == /\ models = [m \in M |-> [names |-> 1, params |-> IF m = "A" THEN 2 ELSE 3, frozen |-> 0, mode |-> 1, alg |-> 0, scales |-> 0, density |-> 0]]
        /\ file = None /\ hist = <<>> /\ known = {} /\ fresh = 4 /\ tensors = 0 /\ env = 0
Log(r) == hist' = Append(hist, r)
Going == Len(hist) < Depth
Fitted(m) == models[m].alg # 0
Set(m, r) == models' = [models EXCEPT ![m] = r]
Same == UNCHANGED <<tensors, env>>
Fit(m) == /\ Going /\ Set(m, [models[m] EXCEPT !.params = fresh, !.alg = fresh, !.mode = 0]) /\ fresh' = fresh + 1
          /\ Log([op |-> "fit", m |-> m]) /\ UNCHANGED <<file, known>> /\ Same
Ask(m) == /\ Going /\ Fitted(m) /\ known' = known \cup {Decides(models[m])}
          /\ Log([op |-> "ask", m |-> m, hit |-> Decides(models[m]) \in known]) /\ UNCHANGED <<models, file, fresh>> /\ Same
Save(m) == /\ Going /\ Fitted(m) /\ file' = Saved(models[m])
           /\ Log([op |-> "save", m |-> m]) /\ UNCHANGED <<models, known, fresh>> /\ Same
Load(m) == /\ Going /\ file # None
           /\ Set(m, [c \in Components |-> IF c \in DOMAIN file THEN file[c] ELSE IF c = "density" THEN 0 ELSE models[m][c]])
           /\ Log([op |-> "load", m |-> m]) /\ UNCHANGED <<file, known, fresh>> /\ Same
Copy(m) == /\ Going /\ Fitted(m) /\ Set(Other(m), models[m])
           /\ Log([op |-> "copy", m |-> m]) /\ UNCHANGED <<file, known, fresh>> /\ Same
Add(m) == /\ Going /\ Fitted(m) /\ Set(m, [models[m] EXCEPT !.scales = fresh]) /\ fresh' = fresh + 1
          /\ Log([op |-> "add", m |-> m]) /\ UNCHANGED <<file, known>> /\ Same
Detach(m) == /\ Going /\ models[m].scales # 0 /\ Set(m, [models[m] EXCEPT !.scales = 0])
             /\ Log([op |-> "detach", m |-> m]) /\ UNCHANGED <<file, known, fresh>> /\ Same
Freeze(m) == /\ Going /\ models[m].frozen = 0 /\ Set(m, [models[m] EXCEPT !.frozen = 1])
             /\ Log([op |-> "freeze", m |-> m]) /\ UNCHANGED <<file, known, fresh>> /\ Same
Mode(m) == /\ Going /\ Set(m, [models[m] EXCEPT !.mode = 1 - @])
           /\ Log([op |-> "mode", m |-> m]) /\ UNCHANGED <<file, known, fresh>> /\ Same
Density(m) == /\ Going /\ Fitted(m) /\ Set(m, [models[m] EXCEPT !.density = fresh]) /\ fresh' = fresh + 1
              /\ Log([op |-> "density", m |-> m]) /\ UNCHANGED <<file, known>> /\ Same
Next == \E m \in M : Fit(m) \/ Ask(m) \/ Save(m) \/ Load(m) \/ Copy(m) \/ Add(m) \/ Detach(m) \/ Freeze(m) \/ Mode(m) \/ Density(m)
Spec == Init /\ [][Next]_vars
\* a call on one model never changes the other (copying is a call on both)
Isolated == [][ \A m \in M : (models'[m] # models[m]) => (hist'[Len(hist')].m = m \/ hist'[Len(hist')].op = "copy") ]_vars
\* questions and saving change nothing; every other call changes only what it may
OpOf(r) == CASE r.op \in {"add", "detach"} -> "scale" [] OTHER -> r.op
Frame == [][ LET r == hist'[Len(hist')] IN r.op # "copy" => Kept(models[r.m], models'[r.m], OpOf(r)) ]_vars
LoadedIsSaved == [][ LET r == hist'[Len(hist')] IN r.op = "load" => Loaded(file, models'[r.m]) ]_vars
CallerKept == [][ UNCHANGED <<tensors, env>> ]_vars
\* sessions ending in a question; "hit": its answer is predicted by an earlier one
Emit == (Len(hist) = Depth /\ hist[Depth].op = "ask" /\ hist[Depth - 1].op # "ask" /\ \E i \in 1..(Depth - 1) : hist[i].op = "ask") =>
          PrintT("SCENARIO " \o ToJson([calls |-> hist, hit |-> hist[Depth].hit]))
=============================================================================
