SPECIFICATION Spec
CONSTANTS
  MaxJ = 3
  MaxM = 4
INVARIANTS WellFormed Emit
