SPECIFICATION Spec
CONSTANTS Depth = 5
 Grid = {0, 1, 3}
INVARIANTS ThereAndBack ChainRule Gradients Detached Emit
