SPECIFICATION Spec
CONSTANTS
  MaxN = 5
  MaxScore = 5
INVARIANTS Sized MatchesMembers Everyone Ascending Emit
