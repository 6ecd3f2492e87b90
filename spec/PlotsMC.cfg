SPECIFICATION Spec
CONSTANTS Steps = 3
 Deep = FALSE
INVARIANTS Declared AllDrawn FixedStay Swap ScaleFree Slopes Emit
CHECK_DEADLOCK FALSE
