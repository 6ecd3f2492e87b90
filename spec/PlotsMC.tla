------------------------------ MODULE PlotsMC ------------------------------
(* Every small plot configuration: what the drawn grid must look like.       *)
EXTENDS Plots, TLC, Json
CONSTANTS Steps, Deep
VARIABLES cfg
vars == <<cfg>>
M1 == [lv |-> 1, key |-> <<>>, W |-> <<<<<<0>>, <<1>>>>, <<<<0>>, <<"1/2">>, <<2>>>>>>, D |-> <<<<0, "1/3">>, <<0, 1, "-1/2">>>>]
M2 == [lv |-> 2, key |-> <<1, 0>>, W |-> <<<<<<0, 0>>, <<1, "1/2">>>>, <<<<0, 0>>, <<"-1/2", 1>>, <<2, 0>>>>>>, D |-> <<<<0, "1/3">>, <<0, 1, "-1/2">>>>]
Model(n) == IF n = 1 THEN M1 ELSE M2
T1 == <<<<"-1/2">>, <<"3/2">>, <<"1/4">>>>
T2 == <<<<"-1/2", 1>>, <<"3/2", -2>>, <<"1/4", "1/3">>>>
Stage(n, kind) ==
  LET diag(p, q) == IF n = 1 THEN <<<<p>>>> ELSE <<<<p, 0>>, <<0, q>>>>
      off == IF n = 1 THEN <<"1/2">> ELSE <<"1/2", -1>>
  IN CASE kind = "stretch" -> [A |-> diag(2, "1/2"), b |-> off, floor |-> <<>>, inv |-> TRUE]
       [] kind = "reverse" -> [A |-> diag(-1, -1), b |-> [v \in 1..n |-> 0], floor |-> <<>>, inv |-> TRUE]
       [] kind = "oneway" -> [A |-> diag("1/2", 3), b |-> off, floor |-> <<>>, inv |-> FALSE]
       [] kind = "backward" -> [A |-> diag(-2, -1), b |-> off, floor |-> <<>>, inv |-> FALSE]
       [] kind = "floor" -> [A |-> diag(1, 2), b |-> off, floor |-> [v \in 1..n |-> 0], inv |-> FALSE]
       [] kind = "mix" -> [A |-> IF n = 1 THEN <<<<3>>>> ELSE <<<<1, 1>>, <<0, 1>>>>, b |-> off, floor |-> <<>>, inv |-> TRUE]
Kinds == {"stretch", "reverse", "oneway", "backward", "floor", "mix"}
\* a floor is only ever the last stage
Stacks == {<<>>} \cup {<<k>> : k \in Kinds} \cup {<<k, q>> : k \in Kinds \ {"floor"}, q \in IF Deep THEN Kinds ELSE {"reverse", "stretch", "floor"}}
Cfgs == {c \in [n : {1, 2}, vars : {<<1>>, <<2>>, <<1, 2>>, <<2, 1>>}, stages : Stacks, trained : BOOLEAN, rescale : BOOLEAN, ranged : BOOLEAN, fixed : BOOLEAN] :
           /\ c.n = 1 => c.vars = <<1>> /\ ~c.fixed
           /\ Len(c.vars) = 2 => ~c.fixed
           /\ (c.stages = <<>> => c.rescale)}
Init == cfg \in Cfgs
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

SS(c) == [i \in 1..Len(c.stages) |-> Stage(c.n, c.stages[i])]
Train(c) == IF ~c.trained THEN <<>> ELSE IF c.n = 1 THEN T1 ELSE T2
Opt(c) == [all |-> IF c.n = 1 THEN <<1>> ELSE <<1, 2>>, vars |-> c.vars, steps |-> Steps, rescale |-> c.rescale,
           ranges |-> [k \in 1..Len(c.vars) |-> IF c.ranged THEN IF k = 1 THEN <<-1, "5/2">> ELSE <<0, 2>> ELSE <<>>], fixed |-> IF c.fixed THEN <<"3/4">> ELSE <<>>]
Grid(c) == LatentGrid(Opt(c), SS(c), Train(c))
Xs(c) == LET x == Reported(Opt(c), SS(c), Grid(c)) IN [i \in 1..Len(x) |-> x[i][c.vars[1]]]

Near(p, q) == RClose(p, q, "1/1000000000", "1/1000000000")
\* when the scale can be undone, the reported scores are the declared range itself, evenly spaced
Declared == (OnReported(Opt(cfg), SS(cfg), Train(cfg)) /\ Len(cfg.vars) = 1) =>
              LET want == Line(SpanOf(Opt(cfg), 1, Reference(Opt(cfg), SS(cfg), Train(cfg))), Steps)
              IN \A i \in 1..Steps : Near(Xs(cfg)[i], want[i])
\* nothing is lost: all grid points are drawn, except that a flat start is drawn once
AllDrawn == (Len(cfg.vars) = 1 /\ Drawn(Xs(cfg)) # <<>>) =>
              LET x == Xs(cfg)
                  d == Drawn(x)
              IN /\ \A i \in 1..Len(x) : \E k \in DOMAIN d : REq(x[d[k]], x[i])
                 /\ \A k, q \in DOMAIN d : k # q => ~REq(x[d[k]], x[d[q]])
\* the other variables stay where they are put, on the scale the grid is laid out on
FixedStay == cfg.n = 2 /\ Len(cfg.vars) = 1 =>
              LET other == IF cfg.vars[1] = 1 THEN 2 ELSE 1
                  lay == Layout(Opt(cfg), Reference(Opt(cfg), SS(cfg), Train(cfg)))
              IN \A i \in 1..Len(lay) : lay[i][other] = lay[1][other]
\* swapping the plotted variables transposes the surface
Swap == Len(cfg.vars) = 2 =>
          LET o == Opt(cfg)
              p == [o EXCEPT !.vars = <<cfg.vars[2], cfg.vars[1]>>, !.ranges = <<o.ranges[2], o.ranges[1]>>]
              g == Grid(cfg)
              h == LatentGrid(p, SS(cfg), Train(cfg))
          IN \A i, j \in 1..Steps : RSame(g[(i - 1) * Steps + j], h[(j - 1) * Steps + i], "1/1000000000", 0)
\* what is drawn depends on the latent point, not on the scale it is drawn against
ScaleFree == cfg.rescale /\ Len(cfg.vars) = 1 /\ OnReported(Opt(cfg), SS(cfg), Train(cfg)) =>
               LET g == Grid(cfg)
                   x == Reported(Opt(cfg), SS(cfg), g)
                   s == Stack(SS(cfg), cfg.n)
               IN \A i \in 1..Len(g) : RSame(Undo(s, x[i]), g[i], "1/1000000000", 0)
\* probabilities of the drawn point sum to one and their slopes to zero; information is the same amount per squared unit of the reported scale
Slopes == Len(cfg.vars) = 1 =>
            LET m == Model(cfg.n)
                dx == Dx(Opt(cfg), SS(cfg))
            IN \A i \in {1, Steps} : LET t == Grid(cfg)[i] IN \A j \in 1..2 :
                 /\ Near(RSum(Dist(m, j, t)), 1)
                 /\ Near(RAdd(1, RSum([k \in 1..Len(m.D[j]) |-> SlopeOf(m, j, k, t, dx, cfg.vars[1])])), 1)
                 /\ (cfg.n = 1 => Near(InfoOf(m, <<j>>, t, dx, <<>>), RMul(InfoOf(m, <<j>>, t, <<<<1>>>>, <<>>), RMul(dx[1][1], dx[1][1]))))
                 /\ (cfg.n = 1 /\ j = 1 => Near(InfoOf(m, <<1>>, t, <<<<1>>>>, <<>>), RMul(Dist(m, 1, t)[1], Dist(m, 1, t)[2])))
Emit == PrintT("SCENARIO " \o ToJson(cfg))
=============================================================================
