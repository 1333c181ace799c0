SPECIFICATION MCSpec
CONSTANTS
  N = 5
  MaxV = 2
  MaxStart = 2
  MaxDelay = 2
INVARIANT Exact
CHECK_DEADLOCK FALSE
