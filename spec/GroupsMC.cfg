SPECIFICATION Spec
CONSTANTS
  MaxN = 4
  MaxScore = 4
INVARIANTS Sized MatchesMembers Everyone Ascending Emit
