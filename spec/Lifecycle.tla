----------------------------- MODULE Lifecycle -----------------------------
(* What the calls of a user's session may change.                            *)
(*                                                                            *)
(* A session holds models, the caller's own tensors, files and a process      *)
(* environment (gradient mode, default dtype).  A model's state is a record   *)
(* of components, each known only by its version:                             *)
(*   names   parameter names, shapes and dtypes                               *)
(*   params  parameter and buffer values                                      *)
(*   frozen  which parameters require gradients                               *)
(*   mode    training / evaluation mode of the model and its parts            *)
(*   alg     the algorithm: training data, latent scores, history, encoder    *)
(*   scales  the scale transformations, in order                              *)
(*   density the latent density the user asked to be approximated             *)
(* Every transition leaves everything it does not mention as it was.          *)
EXTENDS Rat
Components == {"names", "params", "frozen", "mode", "alg", "scales", "density"}
\* what is written to a file, and what decides the answer to a question
Saved(m) == [c \in {"names", "params", "alg", "scales"} |-> m[c]]
Decides(m) == [c \in {"names", "params", "alg", "scales", "density"} |-> m[c]]
\* components that may differ after an operation on the model itself
MayChange(op) ==
  CASE op = "ask" -> {}
    [] op = "fit" -> {"params", "mode", "alg"}
    [] op = "scale" -> {"scales"}
    [] op = "density" -> {"density"}
    [] op = "freeze" -> {"frozen"}
    [] op = "mode" -> {"mode"}
    [] op = "save" -> {}
    [] op = "load" -> {"names", "params", "mode", "alg", "scales", "density"}
Kept(m, m2, op) == \A c \in Components \ MayChange(op) : m2[c] = m[c]
\* loading: what was saved is what the model now is, whatever it was
Loaded(file, m2) == \A c \in DOMAIN file : m2[c] = file[c]
=============================================================================
