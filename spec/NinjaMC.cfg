SPECIFICATION Spec
CONSTANTS
  MaxUser = 1
  MaxBuild = 2
  Which = 1
INVARIANTS Correct Nothing Parallel Ordered CanFinish
CHECK_DEADLOCK FALSE
