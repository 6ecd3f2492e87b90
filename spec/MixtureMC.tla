----------------------------- MODULE MixtureMC -----------------------------
(* Expectation-maximization from every start on every small data set.         *)
EXTENDS Density, TLC, Json
CONSTANTS MaxSteps, Top, N
VARIABLES data, m, n, before
vars == <<data, m, n, before>>
Datas == {s \in [1..N -> 0..Top] : \A i \in 1..(N - 1) : s[i] <= s[i + 1]}
One(s) == [i \in 1..N |-> <<s[i]>>]
Starts == {[w |-> <<a, RSub(1, a)>>, mu |-> <<<<u>>, <<v>>>>, c |-> <<<<<<c>>>>, <<<<"1">>>>>>] : a \in {"1/2", "1/4"}, u \in {0, 1}, v \in {"2", "7/2"}, c \in {"1", "1/4"}}
         \cup {[w |-> <<"1">>, mu |-> <<<<0>>>>, c |-> <<<<<<"1">>>>>>]}
Init == /\ \E s \in Datas : s[1] # s[N] /\ data = One(s)
        /\ m \in Starts /\ n = 0 /\ before = m
Sane(x) == \A k \in 1..Len(x.w) : RLt("1/100", x.c[k][1][1]) /\ RLt("1/100", x.w[k])
Step == n < MaxSteps /\ Sane(m) /\ before' = m /\ m' = EM(m, data) /\ n' = n + 1 /\ UNCHANGED data
Spec == Init /\ [][Step]_vars
T == "1/1000000"
WeightsSum == RClose(RSum(m.w), 1, T, 0)
\* the fitted mixture has the data's own mean and mean square
MeanKept == n = 0 \/ RClose(MixtureMean(m, 1), MeanOf(data, 1), T, 0)
SquareKept == n = 0 \/ RClose(RSum([k \in 1..Len(m.w) |-> RMul(m.w[k], RAdd(m.c[k][1][1], RMul(m.mu[k][1], m.mu[k][1])))]),
                              RDiv(RSum([i \in 1..N |-> RMul(data[i][1], data[i][1])]), N), T, 0)
NeverWorse == n = 0 \/ ~Sane(m) \/ RLe(LogLik(before, data), RAdd(LogLik(m, data), T))
OneNormalAtOnce == Len(m.w) = 1 /\ n > 1 => RSame(m.mu, before.mu, T, 0) /\ RSame(m.c, before.c, T, 0)
Emit == n = 1 => PrintT("SCENARIO " \o ToJson([data |-> data, start |-> before]))
=============================================================================
