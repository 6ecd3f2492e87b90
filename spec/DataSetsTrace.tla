--------------------------- MODULE DataSetsTrace ---------------------------
(* Loads recorded from the library (with downloads that fail, stores that    *)
(* fail, processes that are killed, two loaders at once) and the shipped     *)
(* data sets, checked against DataSets.  Missing responses are Missed.       *)
EXTENDS DataSets, TraceBase
\* copies: the versions the local copy may be (a failed store leaves this open until the next load); w[i]: the version loader i works on
S0 == [versions |-> <<>>, published |-> 0, copies |-> {NoCopy}, w |-> <<NoCopy, NoCopy, NoCopy>>, killed |-> FALSE]
Limit == 300000
Want(t, v) == Processed(t.versions[v], BigFiveReversed, 6 - 1, Limit)
Fits(t, v, e) == e.data = Want(t, v) /\ e.kind = "float32"
Original(t, v, e) == /\ e.original = [r \in 1..Len(t.versions[v]) |-> t.versions[v][r].answers \o t.versions[v][r].times]
                     /\ e.width = 110
ItemsOK(e) == Len(e.items) = 50 /\ Cardinality({e.items[i] : i \in 1..50}) = 50
              /\ \A i \in 1..50 : e.letters[i] = CASE i <= 10 -> "E" [] i <= 20 -> "N" [] i <= 30 -> "A" [] i <= 40 -> "C" [] OTHER -> "O"
Returned(t, vs, e) == C("prepared_responses", \E v \in vs : Fits(t, v, e)) \cup C("the_published_file", \E v \in vs : Fits(t, v, e) /\ Original(t, v, e)) \cup C("item_texts", ItemsOK(e))
Begun(t, e) ==
  IF e.outcome = "failed" THEN [st |-> t, bad |-> {"loads_after_any_failure"}]
  ELSE IF e.outcome = "downloading"
  THEN [st |-> [t EXCEPT !.w[e.who] = t.published, !.copies = @ \cap {NoCopy}], bad |-> C("no_second_download", NoCopy \in t.copies)]
  ELSE LET vs == {v \in t.copies : v # NoCopy /\ Fits(t, v, e)}
       IN [st |-> [t EXCEPT !.copies = IF vs = {} THEN @ ELSE vs], bad |-> Returned(t, t.copies \ {NoCopy}, e) \cup C("a_copy_was_there", t.copies # {NoCopy})]
Ended(t, e) ==
  LET v == t.w[e.who]
      u == [t EXCEPT !.w[e.who] = NoCopy, !.killed = @ \/ e.killed]
  IN CASE e.how = "finish" -> [st |-> [u EXCEPT !.copies = {v}],
                               bad |-> IF e.outcome = "data" THEN Returned(t, {v}, e) ELSE {"load_completes"}]
       [] e.how = "fail_download" -> [st |-> u, bad |-> C("no_data_from_nothing", e.outcome = "failed")]
       [] e.how = "fail_store" -> [st |-> [u EXCEPT !.copies = @ \cup {v}], bad |-> IF e.outcome = "data" THEN Returned(t, {v}, e) ELSE {}]
\* ---- shipped data
Coded(rows) == \A i \in DOMAIN rows : \A j \in DOMAIN rows[i] : rows[i][j] >= Missed
FromZero(rows, lows) == \A j \in DOMAIN lows : lows[j] = 0
Count(S) == Cardinality(S)
Score(rows, keys, i) == Count({j \in DOMAIN keys : rows[i][j] = keys[j]})
\* the key picks out the better respondents (items of one part of the test)
KeyWorks(rows, keys) ==
  LET s == [i \in DOMAIN rows |-> Score(rows, keys, i)]
      Sum(S, j, own) == FoldLeft(LAMBDA a, i : a + s[i] - own, 0, SetToSeq(S))
      Good(j) == LET R == {i \in DOMAIN rows : rows[i][j] = keys[j]}
                     Wr == {i \in DOMAIN rows : rows[i][j] # keys[j]}
                 IN R # {} /\ (Wr = {} \/ Sum(R, j, 1) * Count(Wr) > Sum(Wr, j, 0) * Count(R))
  IN Count({j \in DOMAIN keys : Good(j)}) * 10 >= Len(keys) * 9
Shipped(t, e) ==
  CASE e.op = "sat" ->
         C("coded_from_zero", Coded(e.quant) /\ Coded(e.verb) /\ FromZero(e.quant, e.lowq) /\ FromZero(e.verb, e.lowv)) \cup
         C("keys_are_options", Len(e.keyq) = 80 /\ Len(e.keyv) = 80 /\ \A j \in 1..80 : e.keyq[j] \in 0..e.topq[j] /\ e.keyv[j] \in 0..e.topv[j]) \cup
         C("keys_mark_the_right_answers", KeyWorks(e.quant, e.keyq) /\ KeyWorks(e.verb, e.keyv)) \cup
         C("quantitative_then_verbal", \A i \in DOMAIN e.both : e.both[i] = e.quant[i] \o e.verb[i]) \cup
         C("keys_in_the_same_order", e.keyb = e.keyq \o e.keyv) \cup
         C("one_when_right", \A i \in DOMAIN e.binary : e.binary[i] = [j \in 1..160 |-> IF e.both[i][j] = e.keyb[j] THEN 1 ELSE 0])
    [] e.op = "plain" -> C("coded_from_zero", Coded(e.rows) /\ FromZero(e.rows, e.lows)) \cup C("complete", \A i \in DOMAIN e.rows : \A j \in DOMAIN e.rows[i] : e.rows[i][j] # Missed)
    [] e.op = "again" -> C("every_load_is_fresh", e.same)
Step(t, e) ==
  IF Raised(e) THEN [st |-> t, bad |-> {"loads"}]
  ELSE CASE e.op = "publish" -> [st |-> [t EXCEPT !.versions = Append(@, e.rows), !.published = Len(t.versions) + 1], bad |-> {}]
         [] e.op = "start" -> Begun(t, e)
         [] e.op = "end" -> Ended(t, e)
         [] e.op = "rest" -> [st |-> t, bad |-> C("no_leftovers", t.killed \/ e.left = 0)]
         [] OTHER -> [st |-> t, bad |-> Shipped(t, e)]
TraceInit == l = 1 /\ st = S0
TraceNext == /\ l <= Len(Trace)
             /\ LET e == Trace[l]
                    r == Step(IF e.first THEN S0 ELSE st, e)
                IN /\ st' = r.st
                   /\ l' = l + 1
                   /\ (r.bad = {} \/ PrintT(<<"FAIL", l, e.op, r.bad>>))
TraceSpec == TraceInit /\ [][TraceNext]_<<l, st>>
TraceAccepted ==
  /\ PrintT(<<"ACCEPTED", TLCGet("stats").diameter - 1>>)
  /\ \A o \in {Trace[i].op : i \in 1..Len(Trace)} : PrintT(<<"STAT", o, Cardinality({i \in 1..Len(Trace) : Trace[i].op = o})>>)
=============================================================================
