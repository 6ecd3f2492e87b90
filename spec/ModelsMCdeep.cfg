SPECIFICATION Spec
CONSTANTS
  Grid = {"-3/2", "-1/7", "2/3", "2"}
  ThetaGrid = {"-4", "-2", "0", "1/3", "3"}
  MaxM = 4
INVARIANTS Distributions GpcIsNominal BinaryCoincide NestedConditionals StickTelescopes BasisPartition PolyMonotone PolyIntegral
