SPECIFICATION Spec
CONSTANTS
  MaxParts = 4
  MaxSize = 4
INVARIANTS NoOverlap InOrder Offsets Emit
