SPECIFICATION Spec
CONSTANTS Steps = 5
 Deep = TRUE
INVARIANTS Declared AllDrawn FixedStay Swap ScaleFree Slopes Emit
CHECK_DEADLOCK FALSE
