SPECIFICATION Spec
CONSTANTS
  MaxParts = 3
  MaxSize = 3
INVARIANTS NoOverlap InOrder Offsets Emit
