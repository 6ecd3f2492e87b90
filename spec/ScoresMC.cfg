SPECIFICATION Spec
CONSTANTS
  MaxItems = 2
  Weights = {0, 1, 3}
INVARIANTS IsExact SumsToOne MeanIsExpectedScore Emit
