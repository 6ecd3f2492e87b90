SPECIFICATION Spec
CONSTANTS
  MaxJ = 3
  MaxV = 3
INVARIANTS Exact Emit
