SPECIFICATION Spec
CONSTANTS
  MaxItems = 3
  Weights = {1, 3}
INVARIANTS IsExact SumsToOne MeanIsExpectedScore Emit
