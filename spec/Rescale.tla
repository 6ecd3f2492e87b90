------------------------------ MODULE Rescale ------------------------------
(* Latent scores under a stack of scale transformations.                     *)
(*                                                                           *)
(* A model carries a sequence of scales s_1 .. s_n (empty at first).  Adding *)
(* appends one, detaching empties the sequence.  A score on the original     *)
(* scale is a vector t; stage 0 is t, stage k is s_k applied to stage k-1,   *)
(* and the transformed score is stage n.  Going back applies the inverses    *)
(* from the last to the first.  The Jacobian (row: transformed variable,     *)
(* column: original variable) of the whole is J_n(stage n-1) ... J_1(stage   *)
(* 0).  A gradient g on the original scale becomes the g' with g' J = g, and *)
(* information I the I' with J^T I' J = I.                                   *)
(* The affine scale [A, b] is t -> t A + b (row vectors), with Jacobian A^T. *)
EXTENDS Rat, SequencesExt
Idx(n) == [i \in 1..n |-> i]
VecMat(t, A) == RForce([c \in 1..Len(A[1]) |-> RDot(t, [r \in 1..Len(A) |-> A[r][c]])])
MatMul(A, B) == RForce([r \in 1..Len(A) |-> VecMat(A[r], B)])
Transpose(A) == [c \in 1..Len(A[1]) |-> [r \in 1..Len(A) |-> A[r][c]]]
VecAdd(s, t) == RForce([i \in 1..Len(s) |-> RAdd(s[i], t[i])])
VecSub(s, t) == RForce([i \in 1..Len(s) |-> RSub(s[i], t[i])])
Eye(n) == [r \in 1..n |-> [c \in 1..n |-> IF r = c THEN "1" ELSE "0"]]
Do1(s, t) == VecAdd(VecMat(t, s.A), s.b)
Undo1(s, t) == VecMat(VecSub(t, s.b), s.Ainv)
Do(stack, t) == FoldLeft(LAMBDA a, s : Do1(s, a), t, stack)
Undo(stack, t) == FoldRight(LAMBDA s, a : Undo1(s, a), stack, t)
JacProduct(js, n) == FoldLeft(LAMBDA a, j : MatMul(j, a), Eye(n), js)
Jac(stack, n) == JacProduct([k \in 1..Len(stack) |-> Transpose(stack[k].A)], n)
\* g' J = g
GradMoves(g, g2, J, abs, rel) == RSame(VecMat(g2, J), g, abs, rel)
\* J^T I' J = I
InfoMoves(I, I2, J, abs, rel) == RSame(MatMul(Transpose(J), MatMul(I2, J)), I, abs, rel)
Quad(c, I) == RDot(c, VecMat(c, Transpose(I)))
\* standard errors of transformed scores from uncorrelated original ones (delta method)
DeltaSE(J, se) == [i \in 1..Len(J) |-> RSqrt(RSum([v \in 1..Len(se) |-> RMul(RMul(J[i][v], J[i][v]), RMul(se[v], se[v]))]))]
MaxAbs(x) == FoldLeft(LAMBDA a, v : IF RIsNum(v) THEN RMax2(a, RAbs(v)) ELSE a, "0", x)
=============================================================================
