SPECIFICATION Spec
CONSTANTS MaxItems = 2
 MaxSteps = 4
INVARIANTS NonNegative Symmetric Additive Balanced ScoreBound Emit
PROPERTIES MergeLoses AddGains Moves
