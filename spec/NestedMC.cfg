SPECIFICATION Spec
CONSTANTS
  MaxJ = 2
  MaxM = 4
INVARIANTS WellFormed Emit
