SPECIFICATION Spec
CONSTANTS J = 3
 K = 3
 Half = 4
INVARIANTS OrderFree NothingSeen InRange Monotone Own Emit
