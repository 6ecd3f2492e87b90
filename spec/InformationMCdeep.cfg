SPECIFICATION Spec
CONSTANTS MaxItems = 3
 MaxSteps = 5
INVARIANTS NonNegative Symmetric Additive Balanced ScoreBound Emit
PROPERTIES MergeLoses AddGains Moves
