SPECIFICATION Spec
CONSTANTS Steps = 24
 Bins = 3
 Half = 7
INVARIANTS OwnSlope PolySlope There IdentityTails Unity SlopeOfBasis BoundedOdd Emit
PROPERTY Rising
CHECK_DEADLOCK FALSE
