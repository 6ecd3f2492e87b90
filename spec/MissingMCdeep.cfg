SPECIFICATION Spec
CONSTANTS N = 3
 J = 2
 K = 2
INVARIANTS Projected FitProjected NothingLost Emit
