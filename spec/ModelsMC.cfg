SPECIFICATION Spec
CONSTANTS
  Grid = {"-3/2", "0", "2/3"}
  ThetaGrid = {"-2", "1/3", "3"}
  MaxM = 4
INVARIANTS Distributions GpcIsNominal BinaryCoincide NestedConditionals StickTelescopes BasisPartition PolyMonotone PolyIntegral
