SPECIFICATION Spec
CONSTANTS
  MaxJ = 3
  MaxV = 2
INVARIANTS Exact Emit
