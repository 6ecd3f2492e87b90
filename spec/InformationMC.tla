--------------------------- MODULE InformationMC ---------------------------
(* A test grows by items, categories are merged, and the latent scale is     *)
(* stretched and mixed; the information follows.  Items have category        *)
(* weights w_k(t) linear in t, so slopes are exact.                          *)
EXTENDS Information, TLC, Json
CONSTANTS MaxItems, MaxSteps
VARIABLES items, info, scale, steps
vars == <<items, info, scale, steps>>
\* p_k = w_k / s, dp_k/dt_v = (d_kv s - w_k D_v) / s^2 with s = SUM w, D_v = SUM d_kv
Item(w, d) == LET s == RSum(w)
              IN [p |-> [k \in 1..Len(w) |-> RDiv(w[k], s)],
                  g |-> [k \in 1..Len(w) |-> [v \in 1..2 |->
                          RDiv(RSub(RMul(d[k][v], s), RMul(w[k], RSum([h \in 1..Len(w) |-> d[h][v]]))), RMul(s, s))]]]
Bank == {Item(<<1, 2>>, <<<<0, 0>>, <<1, -1>>>>), Item(<<1, 1, 3>>, <<<<0, 0>>, <<1, 0>>, <<2, 1>>>>),
         Item(<<4, 2, 1>>, <<<<-1, 2>>, <<1, 1>>, <<0, 0>>>>), Item(<<0, 1, 1>>, <<<<0, 0>>, <<1, 3>>, <<0, 1>>>>)}
Mats == {<<<<2, 0>>, <<0, 1>>>>, <<<<1, 1>>, <<0, 1>>>>, <<<<0, -1>>, <<1, 0>>>>}        \* theta' = A theta
InvT(A) == LET d == RSub(RMul(A[1][1], A[2][2]), RMul(A[1][2], A[2][1]))     \* slopes follow by the inverse transpose
           IN <<<<RDiv(A[2][2], d), RDiv(RNeg(A[2][1]), d)>>, <<RDiv(RNeg(A[1][2]), d), RDiv(A[1][1], d)>>>>
Apply(M, v) == [a \in 1..2 |-> RDot(M[a], v)]
Zero == <<<<0, 0>>, <<0, 0>>>>
Total(its) == IF its = <<>> THEN Zero ELSE MatSum([j \in 1..Len(its) |-> ItemInfo(its[j].p, its[j].g)])
Init == items = <<>> /\ info = Zero /\ scale = <<>> /\ steps = 0
More == steps < MaxSteps /\ steps' = steps + 1
AddItem(b) == /\ More /\ Len(items) < MaxItems /\ scale = <<>>
              /\ items' = Append(items, b) /\ info' = Total(items') /\ UNCHANGED scale
Merged(it, k) == [p |-> [h \in 1..(Len(it.p) - 1) |-> IF h < k THEN it.p[h] ELSE IF h = k THEN RAdd(it.p[k], it.p[k + 1]) ELSE it.p[h + 1]],
                  g |-> [h \in 1..(Len(it.p) - 1) |-> [v \in 1..2 |-> IF h < k THEN it.g[h][v] ELSE IF h = k THEN RAdd(it.g[k][v], it.g[k + 1][v]) ELSE it.g[h + 1][v]]]]
Merge(j, k) == /\ More /\ j \in 1..Len(items) /\ k \in 1..(Len(items[j].p) - 1) /\ Len(items[j].p) > 2
               /\ items' = [items EXCEPT ![j] = Merged(items[j], k)] /\ info' = Total(items') /\ UNCHANGED scale
Rescale(A) == /\ More /\ items # <<>>
              /\ items' = [j \in 1..Len(items) |-> [items[j] EXCEPT !.g = [k \in 1..Len(items[j].g) |-> Apply(InvT(A), items[j].g[k])]]]
              /\ info' = Total(items') /\ scale' = Append(scale, A)
Next == \/ \E b \in Bank : AddItem(b)
        \/ \E j \in 1..MaxItems, k \in 1..2 : Merge(j, k)
        \/ \E A \in Mats : Rescale(A)
Spec == Init /\ [][Next]_vars
Dirs == {<<1, 0>>, <<0, 1>>, <<1, 1>>, <<1, -1>>, <<2, 1>>}
NonNegative == \A c \in Dirs : RLe(0, InDirection(info, c))
Symmetric == REq(info[1][2], info[2][1])
Additive == items # <<>> => \A c \in Dirs : REq(InDirection(info, c), RSum([j \in 1..Len(items) |-> InDirection(ItemInfo(items[j].p, items[j].g), c)]))
Balanced == \A j \in 1..Len(items) : SumsToZero(items[j].g, 0)
\* a score can not be more sensitive than its spread and the information allow
ScoreBound == \A j \in 1..Len(items) : LET it == items[j]
                                           pts == [k \in 1..Len(it.p) |-> k - 1]
                                           s == ScoreSlope(it.g, pts)
                                       IN \A v \in 1..2 : RLe(RMul(s[v], s[v]), RMul(VarOf(it.p, pts), ItemInfo(it.p, it.g)[v][v]))
MergeLoses == [][(Len(items') = Len(items) /\ scale' = scale) => \A c \in Dirs : RLe(InDirection(info', c), InDirection(info, c))]_vars
AddGains == [][Len(items') > Len(items) => \A c \in Dirs : RLe(InDirection(info, c), InDirection(info', c))]_vars
\* information about theta' = A theta in direction A c is the information about theta in direction c
Moves == [][Len(scale') > Len(scale) => \A c \in Dirs :
             LET A == scale'[Len(scale')] IN REq(InDirection(info', Apply(A, c)), InDirection(info, c))]_vars
Emit == items # <<>> => PrintT("SCENARIO " \o ToJson([cats |-> [j \in 1..Len(items) |-> Len(items[j].p)], scale |-> scale]))
=============================================================================
