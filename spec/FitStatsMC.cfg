SPECIFICATION Spec
CONSTANTS
  N = 2
  J = 2
  K = 3
INVARIANTS AccuracyIsRunning LevelsAgree PredictionBounds FitIsNonNegative LikelihoodIsRunning Emit
