SPECIFICATION Spec
CONSTANTS MaxSteps = 2
 Top = 3
 N = 4
INVARIANTS WeightsSum MeanKept SquareKept NeverWorse OneNormalAtOnce Emit
