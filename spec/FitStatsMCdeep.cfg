SPECIFICATION Spec
CONSTANTS
  N = 3
  J = 2
  K = 3
INVARIANTS AccuracyIsRunning LevelsAgree PredictionBounds FitIsNonNegative LikelihoodIsRunning Emit
