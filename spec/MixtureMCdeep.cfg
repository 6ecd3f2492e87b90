SPECIFICATION Spec
CONSTANTS MaxSteps = 5
 Top = 3
 N = 5
INVARIANTS WeightsSum MeanKept SquareKept NeverWorse OneNormalAtOnce Emit
