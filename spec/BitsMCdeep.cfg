SPECIFICATION Spec
CONSTANTS MaxLen = 4
 Deep = 1
INVARIANTS WalkCounts NeverNegative AtLeastTheDifference AtMostPerStep BothWays Additive Increasing Splits ShortCut Emit
