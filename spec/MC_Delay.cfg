SPECIFICATION MCSpec
CONSTANTS
  N = 4
  MaxDelay = 2
  MaxRounds = 1
INVARIANT Exact
CHECK_DEADLOCK FALSE
