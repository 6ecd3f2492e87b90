--------------------------- MODULE CrossValTrace ---------------------------
(* Cross-validation, splitting and comparing recorded from the library.      *)
(* run: the data (distinct rows), folds asked for and grid of settings;      *)
(* fit: one training run as the algorithm saw it; table: the result.         *)
EXTENDS CrossVal, TraceBase
S0 == [data |-> <<>>, folds |-> 0, values |-> <<>>, entry |-> <<>>, extra |-> "nan", fits |-> <<>>]
Ids(rows, data) == {i \in 1..Len(data) : \E a \in 1..Len(rows) : rows[a] = data[i]}
Out(f, data) == (1..Len(data)) \ Ids(f.rows, data)
Same(a, b) == RSame(a, b, "1/1000000000", 0)
Of(t, s) == SelectSeq(t.fits, LAMBDA f : Same(f.setting, s))
Step(t, e) ==
  CASE Raised(e) -> [st |-> t, bad |-> {"raised"}]
    [] e.op = "run" -> [st |-> [S0 EXCEPT !.data = e.data, !.folds = e.folds, !.values = e.values, !.entry = e.entry, !.extra = e.extra],
                        bad |-> C("distinct_rows", Cardinality({e.data[i] : i \in 1..Len(e.data)}) = Len(e.data))]
    [] e.op = "fit" ->
        LET mine == Of(t, e.setting)
            out == Out(e, t.data)
        IN [st |-> [t EXCEPT !.fits = Append(@, e)],
            bad |-> C("setting_of_the_grid", \E g \in 1..Len(Grid(t.values)) : Same(Grid(t.values)[g], e.setting))
               \cup C("other_arguments_passed_on", RSame(e.extra, t.extra, 0, 0))
               \cup C("respondents_of_the_data", Len(e.rows) = Cardinality(Ids(e.rows, t.data)) /\ e.seen = Len(e.rows))
               \cup C("something_held_out", Len(t.data) >= t.folds => out # {})
               \cup C("held_out_once", \A f \in 1..Len(mine) : Out(mine[f], t.data) \cap out = {})
               \cup C("fresh_model", RSame(e.entry, t.entry, "1/10000000", 0))
               \cup C("fresh_algorithm", e.fits = 1)]
    [] e.op = "table" ->
        LET grid == Grid(t.values)
            row(g) == SelectSeq([a \in 1..Len(e.rows) |-> a], LAMBDA a : Same(e.rows[a], g))
            expected(g) == LET mine == Of(t, g)
                           IN RDbl(Mean([f \in 1..Len(mine) |-> HeldOut(mine[f].p, SetToSeq({t.data[i] : i \in Out(mine[f], t.data)}))]))
        IN [st |-> t,
            bad |-> C("one_row_for_every_combination", Len(e.rows) = Len(grid) /\ \A g \in 1..Len(grid) : Len(row(grid[g])) = 1)
               \cup C("every_fold_of_every_combination", \A g \in 1..Len(grid) : Len(Of(t, grid[g])) = t.folds)
               \cup C("everyone_held_out", \A g \in 1..Len(grid) : UNION {Out(t.fits[f], t.data) : f \in {f \in 1..Len(t.fits) : Same(t.fits[f].setting, grid[g])}} = 1..Len(t.data))
               \cup C("same_folds_for_all", \A f \in 1..Len(t.fits), g \in 1..Len(grid) : \E h \in 1..Len(t.fits) : Same(t.fits[h].setting, grid[g]) /\ Out(t.fits[h], t.data) = Out(t.fits[f], t.data))
               \cup C("folds_of_equal_size", LET s == {Cardinality(Out(t.fits[f], t.data)) : f \in 1..Len(t.fits)} IN \A a, b \in s : a - b <= 1)
               \cup C("held_out_log_likelihood", \A g \in 1..Len(grid) : \A a \in 1..Len(e.rows) : Same(e.rows[a], grid[g]) => RClose(e.lls[a], expected(grid[g]), "1/1000", "1/5000"))]
    [] e.op = "after" -> [st |-> t, bad |-> C("caller_keeps_an_untrained_model", e.untrained /\ RSame(e.entry, t.entry, 0, 0)) \cup C("caller_keeps_the_data", RSame(e.data, t.data, 0, 0))]
    [] e.op = "split" ->
        LET n == Len(e.train) + Len(e.test)
        IN [st |-> t,
            bad |-> C("everyone_in_one_part", n = e.n /\ {e.train[a] : a \in 1..Len(e.train)} \cup {e.test[a] : a \in 1..Len(e.test)} = 1..e.n)
               \cup C("requested_share", RLt(RAbs(RSub(Len(e.train), RMul(e.n, e.share))), "1000001/1000000"))
               \cup C("order_kept_unless_shuffled", e.shuffle \/ e.train \o e.test = [i \in 1..e.n |-> i])
               \cup C("same_seed_same_split", e.again = e.train)
               \cup C("other_seed_other_split", ~e.shuffle \/ e.other # e.train \o e.test)]
    [] e.op = "fleet" ->       \* P[i]: what the i-th returned model gives; made: entry intercepts and result of every fit
        [st |-> t, bad |-> C("every_model_trained_once_in_order", Len(e.P) = Len(e.entries) /\ Len(e.made) = Len(e.entries) /\
              \A i \in 1..Len(e.entries) : \E m \in 1..Len(e.made) : RSame(e.made[m].entry, e.entries[i], 0, 0) /\ RSame(e.made[m].p, e.P[i], "1/1000000", 0) /\ RSame(e.made[m].rows, e.data, 0, 0))]
    [] e.op = "vigorish" ->
        LET count == FoldLeft(LAMBDA a, r : a + Cardinality({j \in 1..Len(r) : r[j] # -1}), 0, e.x)
            ml(P) == RDbl(RDiv(RSum([i \in 1..Len(e.x) |-> LogLik(P[i], e.x[i])]), count))
        IN [st |-> t, bad |-> C("coin_of_the_mean_log_likelihood", RClose(e.value, Vigorish(ml(e.P1), ml(e.P2)), "1/2000", "1/2000"))]
    [] OTHER -> [st |-> t, bad |-> {"unknown_event"}]
TraceInit == l = 1 /\ st = S0
TraceNext == /\ l <= Len(Trace)
             /\ LET e == Trace[l]
                    r == Step(IF e.first THEN S0 ELSE st, e)
                IN /\ st' = r.st
                   /\ l' = l + 1
                   /\ (r.bad = {} \/ PrintT(<<"FAIL", l, e.op, r.bad>>))
TraceSpec == TraceInit /\ [][TraceNext]_<<l, st>>
TraceAccepted ==
  /\ PrintT(<<"ACCEPTED", TLCGet("stats").diameter - 1>>)
  /\ \A o \in {Trace[i].op : i \in 1..Len(Trace)} : PrintT(<<"STAT", o, Cardinality({i \in 1..Len(Trace) : Trace[i].op = o})>>)
=============================================================================
