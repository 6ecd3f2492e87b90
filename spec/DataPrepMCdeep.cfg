SPECIFICATION Spec
CONSTANTS N = 3
 K = 3
 MaxSteps = 2
INVARIANTS Preserved Filled InRange OneMark Cuts GuessSums Emit
PROPERTIES CodeIsFaithful Once Relation
