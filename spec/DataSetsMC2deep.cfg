SPECIFICATION Spec
CONSTANTS Loaders = 2
 MaxLoads = 4
 Versions = 2
INVARIANTS WholeResult WholeCopy PrepLaws Emit
PROPERTIES NoSecondDownload CopyStays FailureLeavesCopy
CHECK_DEADLOCK FALSE
