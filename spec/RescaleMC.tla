----------------------------- MODULE RescaleMC -----------------------------
(* All stacks of invertible integer maps of the plane up to a length, built  *)
(* by every sequence of additions and detachments.                           *)
EXTENDS Rescale, TLC, Json
CONSTANTS Depth, Grid
VARIABLES stack, hist
vars == <<stack, hist>>
Sc(name, A, Ainv, b) == [name |-> name, A |-> A, Ainv |-> Ainv, b |-> b]
Kinds == {
  Sc("reverse1", <<<<-1, 0>>, <<0, 1>>>>, <<<<-1, 0>>, <<0, 1>>>>, <<0, 0>>),
  Sc("reverse2", <<<<1, 0>>, <<0, -1>>>>, <<<<1, 0>>, <<0, -1>>>>, <<0, 0>>),
  Sc("turn", <<<<0, 1>>, <<-1, 0>>>>, <<<<0, -1>>, <<1, 0>>>>, <<0, 0>>),
  Sc("shear", <<<<1, 1>>, <<0, 1>>>>, <<<<1, -1>>, <<0, 1>>>>, <<0, 0>>),
  Sc("shift", <<<<1, 0>>, <<0, 1>>>>, <<<<1, 0>>, <<0, 1>>>>, <<1, -2>>)}
Init == stack = <<>> /\ hist = <<>>
Add(s) == Len(hist) < Depth /\ stack' = Append(stack, s) /\ hist' = Append(hist, s.name)
Detach == Len(hist) < Depth /\ stack' = <<>> /\ hist' = Append(hist, "detach")
Next == (\E s \in Kinds : Add(s)) \/ (Len(hist) > 0 /\ hist[Len(hist)] # "detach" /\ Detach)
Spec == Init /\ [][Next]_vars
Points == {<<a - 1, b - 1>> : a \in Grid, b \in Grid}
E(i) == [v \in 1..2 |-> IF v = i THEN 1 ELSE 0]
ThereAndBack == \A t \in Points : RSame(Undo(stack, Do(stack, t)), t, 0, 0) /\ RSame(Do(stack, Undo(stack, t)), t, 0, 0)
\* the product of the Jacobians is the derivative of the composition (exact for affine maps)
ChainRule == LET J == Jac(stack, 2)
             IN \A t \in Points, i \in 1..2 : RSame(VecSub(Do(stack, VecAdd(t, E(i))), Do(stack, t)), [r \in 1..2 |-> J[r][i]], 0, 0)
\* the derivative along the transformed axes of the function t -> g.t is the moved gradient
Gradients == LET J == Jac(stack, 2)
                 z == Do(stack, <<0, 0>>)
             IN \A g \in Points :
                  LET g2 == [i \in 1..2 |-> RSub(RDot(g, Undo(stack, VecAdd(z, E(i)))), RDot(g, Undo(stack, z)))]
                  IN GradMoves(g, g2, J, 0, 0)
                     /\ InfoMoves([r \in 1..2 |-> [c \in 1..2 |-> g[r] * g[c]]], [r \in 1..2 |-> [c \in 1..2 |-> RMul(g2[r], g2[c])]], J, 0, 0)
\* detaching restores the original scale whatever came before
Detached == (Len(hist) > 0 /\ hist[Len(hist)] = "detach") => \A t \in Points : Do(stack, t) = t
\* the order matters: composing the other way round is a different scale for some stacks
ASSUME LET K(n) == CHOOSE s \in Kinds : s.name = n IN ~RSame(Do(<<K("turn"), K("shear")>>, <<1, 2>>), Do(<<K("shear"), K("turn")>>, <<1, 2>>), 0, 0)
Emit == Len(hist) = Depth => PrintT("SCENARIO " \o ToJson(hist))
=============================================================================
