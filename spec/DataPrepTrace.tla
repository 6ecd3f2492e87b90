--------------------------- MODULE DataPrepTrace ---------------------------
(* Tables and what the library's preparation steps returned for them.        *)
EXTENDS DataPrep, TraceBase
S0 == [x |-> <<>>, cats |-> <<>>, key |-> <<>>]
Same(a, b) == RSame(a, b, 0, 0)
Codes(x, m) == \A i \in 1..NRows(x), j \in 1..NItems(x) : m[i][j] = (x[i][j] = -1)
Step(t, e) ==
  CASE Raised(e) -> [st |-> t, bad |-> {"raised"}]
    [] e.op = "table" -> [st |-> [x |-> e.x, cats |-> e.cats, key |-> e.key], bad |-> {}]
    [] e.op = "categories" ->
        [st |-> t, bad |-> C("one_more_than_the_largest_response",
                             Len(e.v) = NItems(t.x) /\ \A j \in 1..NItems(t.x) : SeenIn(t.x, j) = {} \/ e.v[j] = Cats(t.x, j))]
    [] e.op = "impute" ->
        LET cats == IF e.given THEN t.cats ELSE [j \in 1..NItems(t.x) |-> IF SeenIn(t.x, j) = {} THEN t.cats[j] ELSE Cats(t.x, j)]
        IN IF ~SameSize(t.x, e.y) THEN [st |-> t, bad |-> {"same_size"}]
           ELSE [st |-> t, bad |-> C("observed_responses_kept", ObservedKept(t.x, e.y))
                                   \cup C("value_of_the_method", MissingFilled(e.method, t.x, cats, t.key, e.E, e.y))]
    [] e.op = "again" -> [st |-> t, bad |-> C("a_full_table_stays_as_it_is", Same(e.y, e.z))]
    [] e.op = "onehot" -> [st |-> t, bad |-> C("marks_exactly_the_observed_category", Same(e.h, OneHot(t.x, t.cats)))
                                             \cup C("read_back", Same(Decode(e.h, t.cats), t.x))]
    [] e.op = "dataset" ->
        [st |-> t, bad |-> C("responses_kept", \A i \in 1..NRows(t.x), j \in 1..NItems(t.x) : Seen(t.x, i, j) => REq(e.data[i][j], t.x[i][j]))
                           \cup C("mask_is_the_missing_cells", Codes(t.x, e.mask))
                           \cup C("encoder_input",
                                  IF e.method = "none" THEN (e.onehot => Same(e.input, OneHot(t.x, t.cats)))
                                  ELSE LET y == IF e.onehot THEN Decode(e.input, t.cats) ELSE e.input
                                       IN SameSize(t.x, y) /\ ObservedKept(t.x, y) /\ MissingFilled(e.method, t.x, t.cats, t.key, <<>>, y))]
    [] e.op = "draws" ->      \* how often each option was put into the missing cells of one item
        [st |-> t, bad |-> C("drawn_from_all_incorrect_options",
                             \A k \in 0..(e.cats - 1) : IF k = e.key THEN e.counts[k + 1] = 0 ELSE Plausible(e.counts[k + 1], e.n, RDiv(1, e.cats - 1)))]
    [] e.op = "guess" ->
        [st |-> t, bad |-> C("respondents_asked_for", Len(e.y) = e.n /\ \A i \in 1..Len(e.y) : Len(e.y[i]) = Len(e.cats))
                           \cup C("responses_in_range", \A i \in 1..Len(e.y), j \in 1..Len(e.cats) : e.y[i][j] \in 0..(e.cats[j] - 1))
                           \cup C("guessing_probability", \A j \in 1..Len(e.cats) : \A k \in 0..(e.cats[j] - 1) :
                                     Plausible(Cardinality({i \in 1..Len(e.y) : e.y[i][j] = k}), e.n, GuessProb(e.cats, e.key, e.g, j, k)))]
    [] e.op = "split" ->
        [st |-> t, bad |-> C("every_respondent_once", SplitOK(e.n, e.a, e.b))
                           \cup C("respondents_whole", e.whole)
                           \cup C("proportion", ProportionOK(e.n, e.a, e.ratio))
                           \cup (IF e.shuffle THEN {} ELSE C("in_order", InOrder(e.n, e.a, e.b)))]
    [] e.op = "sumscore" -> [st |-> t, bad |-> C("sum_of_the_responses", Same(e.v, SumScore(t.x, e.key)))]
    [] e.op = "shipped" ->
        [st |-> t, bad |-> C("keyed_responses_are_ones", \A i \in 1..Len(e.raw), j \in 1..Len(e.key) : e.raw[i][j] # -1 => e.bin[i][j] = (IF e.raw[i][j] = e.key[j] THEN 1 ELSE 0))
                           \cup C("key_is_an_option", \A j \in 1..Len(e.key) : e.key[j] >= 0 /\ e.key[j] <= e.top[j])]
    [] OTHER -> [st |-> t, bad |-> {"unknown_event"}]
TraceInit == l = 1 /\ st = S0
TraceNext == /\ l <= Len(Trace)
             /\ LET e == Trace[l]
                    r == Step(IF e.first THEN S0 ELSE st, e)
                IN /\ st' = r.st
                   /\ l' = l + 1
                   /\ (r.bad = {} \/ PrintT(<<"FAIL", l, e.op, r.bad>>))
TraceSpec == TraceInit /\ [][TraceNext]_<<l, st>>
TraceAccepted ==
  /\ PrintT(<<"ACCEPTED", TLCGet("stats").diameter - 1>>)
  /\ \A o \in {Trace[i].op : i \in 1..Len(Trace)} : PrintT(<<"STAT", o, Cardinality({i \in 1..Len(Trace) : Trace[i].op = o})>>)
=============================================================================
