SPECIFICATION Spec
CONSTANTS Steps = 12
 Bins = 2
 Half = 3
INVARIANTS OwnSlope PolySlope There IdentityTails Unity SlopeOfBasis BoundedOdd Emit
PROPERTY Rising
CHECK_DEADLOCK FALSE
