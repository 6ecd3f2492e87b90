SPECIFICATION Spec
CONSTANTS MaxLen = 3
 Deep = 0
INVARIANTS WalkCounts NeverNegative AtLeastTheDifference AtMostPerStep BothWays Additive Increasing Splits ShortCut Emit
