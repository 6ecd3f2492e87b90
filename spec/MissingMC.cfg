SPECIFICATION Spec
CONSTANTS N = 2
 J = 2
 K = 3
INVARIANTS Projected FitProjected NothingLost Emit
