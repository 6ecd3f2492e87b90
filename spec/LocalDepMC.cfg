SPECIFICATION Spec
CONSTANTS Rows = 3
 ProbRows = 2
 Items = 2
INVARIANTS Symmetric Bounded OnlyThePair Relabel Doubled BaseChange CorrLaws ModelLaws NullIsALaw Emit
CHECK_DEADLOCK FALSE
