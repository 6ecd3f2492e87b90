SPECIFICATION Spec
CONSTANTS Rows = 4
 ProbRows = 3
 Items = 2
INVARIANTS Symmetric Bounded OnlyThePair Relabel Doubled BaseChange CorrLaws ModelLaws NullIsALaw Emit
CHECK_DEADLOCK FALSE
