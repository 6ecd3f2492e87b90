------------------------------ MODULE BitsTrace ------------------------------
(* Bit scores recorded from the library, with the model's own probabilities   *)
(* along the paths they count on.  cum[v]: totals along latent variable v.    *)
EXTENDS Bits, TraceBase
S0 == [sign |-> <<>>, start |-> <<>>, items |-> <<>>, x |-> <<>>, cum |-> <<>>]
Hs(P) == [i \in 1..Len(P) |-> Entropies(P[i])]
Adj(t, v, a) == RMul(t.sign[v], a)
\* where a latent score counts: not before the starting point
Place(t, v, a) == RMax2(Adj(t, v, a), Adj(t, v, t.start[v]))
Tol == "1/300"
Central(lo, hi, h) == RDiv(RSub(hi, lo), RMul(2, h))
Extrapolated(l1, h1, l2, h2, h) == RDiv(RSub(RMul(4, Central(l1, h1, h)), Central(l2, h2, RMul(2, h))), 3)
OnLine(p, a, b, k, n) == \A v \in 1..Len(p) : RClose(p[v], RAdd(a[v], RMul(RDiv(k, n), RSub(b[v], a[v]))), "1/1000", "1/10000")
Step(t, e) ==
  CASE Raised(e) -> [st |-> t, bad |-> {"raised"}]
    [] e.op = "scale" ->
        LET sign == [v \in 1..Len(e.lo) |-> Direction(e.lo[v], e.hi[v], e.pts)]
        IN [st |-> [S0 EXCEPT !.sign = sign, !.items = e.items,
                              !.start = IF e.start = <<>> THEN [v \in 1..Len(sign) |-> -10000 * sign[v]] ELSE e.start], bad |-> {}]
    [] e.op = "curve" ->
        [st |-> [t EXCEPT !.x = Append(@, e.x), !.cum = Append(@, Totals(Hs(e.P), t.items))],
         bad |-> C("harness_path", \A i \in 1..(Len(e.x) - 1) : RLt(Adj(t, e.v, e.x[i]), Adj(t, e.v, e.x[i + 1])))
            \cup C("harness_path_starts", REq(Adj(t, e.v, e.x[1]), Adj(t, e.v, t.start[e.v])))]
    [] e.op = "bits" ->
        [st |-> t,
         bad |-> C("harness_places", \A i \in 1..Len(e.theta), v \in 1..Len(t.sign) : REq(Place(t, v, e.theta[i][v]), Adj(t, v, t.x[v][e.idx[i][v]])))
            \cup C("rows", Len(e.out) = Len(e.theta))
            \cup C("counts_the_bits_along_each_variable", \A i \in 1..Len(e.theta), v \in 1..Len(t.sign) : RClose(e.out[i][v], t.cum[v][e.idx[i][v]], Tol, Tol))
            \cup C("zero_at_the_start", \A i \in 1..Len(e.theta), v \in 1..Len(t.sign) : e.idx[i][v] # 1 \/ REq(e.out[i][v], 0))
            \cup C("never_decreases", \A i, k \in 1..Len(e.theta), v \in 1..Len(t.sign) : e.idx[i][v] > e.idx[k][v] \/ RLe(e.out[i][v], e.out[k][v]))]
    [] e.op = "line" ->      \* one score per respondent along the straight way from the start
        [st |-> t,
         bad |-> C("harness_path", \A i \in 1..Len(e.paths) : LET p == e.paths[i]
                                                                  last == [v \in 1..Len(t.sign) |-> RMul(t.sign[v], Place(t, v, e.theta[i][v]))]
                                                              IN \A k \in 1..Len(p) : OnLine(p[k], t.start, last, k - 1, Len(p) - 1))
            \cup C("one_score_each", Len(e.out) = Len(e.theta) /\ \A i \in 1..Len(e.out) : Len(e.out[i]) = 1)
            \cup C("counts_the_bits_along_the_line", \A i \in 1..Len(e.out) :
                      LET c == Totals(Hs(e.P[i]), t.items) IN RClose(e.out[i][1], c[Len(c)], Tol, Tol))]
    [] e.op = "ends" ->      \* any way from the start to the score counts at least the difference
        [st |-> t, bad |-> C("at_least_the_difference", \A i \in 1..Len(e.out) :
                      RLe(Chosen(t.items, Change(Entropies(e.P0), Entropies(e.P[i]))), RAdd(e.out[i][1], Tol)))]
    [] e.op = "slope" ->     \* derivative of a one-dimensional bit score beyond the start
        LET H(P, j) == Entropy(P[j])
            D(i) == RSum([a \in 1..Len(t.items) |-> LET j == t.items[a] + 1
                                                    IN RAbs(Extrapolated(H(e.l1[i], j), H(e.h1[i], j), H(e.l2[i], j), H(e.h2[i], j), e.h))])
        IN [st |-> t, bad |-> C("derivative_of_the_bits", \A i \in 1..Len(e.J) : RClose(e.J[i][1][1], RMul(t.sign[1], D(i)), "1/100", "1/100"))]
    [] e.op = "guess" ->     \* starting point from random guessers: their median score
        [st |-> t,
         bad |-> C("guessers_answer_the_chosen_items", \A i \in 1..Len(e.data) : \A j \in 1..Len(e.cats) :
                      IF (j - 1) \in {e.items[a] : a \in 1..Len(e.items)} THEN e.data[i][j] \in 0..(e.cats[j] - 1) /\ (~e.never \/ e.data[i][j] # e.key[j])
                      ELSE e.data[i][j] = -1)
            \cup C("as_many_as_asked", Len(e.data) = e.n)
            \cup C("median_of_their_scores", \A v \in 1..Len(e.start) :
                      LET s == [i \in 1..Len(e.scores) |-> e.scores[i][v]]
                          below == Cardinality({i \in 1..Len(s) : RLt(s[i], e.start[v])})
                          above == Cardinality({i \in 1..Len(s) : RLt(e.start[v], s[i])})
                      IN 2 * below <= Len(s) /\ 2 * above <= Len(s) /\ \E i \in 1..Len(s) : REq(s[i], e.start[v]))]
    [] OTHER -> [st |-> t, bad |-> {"unknown_event"}]
TraceInit == l = 1 /\ st = S0
TraceNext == /\ l <= Len(Trace)
             /\ LET e == Trace[l]
                    r == Step(IF e.first THEN S0 ELSE st, e)
                IN /\ st' = r.st
                   /\ l' = l + 1
                   /\ (r.bad = {} \/ PrintT(<<"FAIL", l, e.op, r.bad>>))
TraceSpec == TraceInit /\ [][TraceNext]_<<l, st>>
TraceAccepted ==
  /\ PrintT(<<"ACCEPTED", TLCGet("stats").diameter - 1>>)
  /\ \A o \in {Trace[i].op : i \in 1..Len(Trace)} : PrintT(<<"STAT", o, Cardinality({i \in 1..Len(Trace) : Trace[i].op = o})>>)
=============================================================================
