SPECIFICATION MCSpec
CONSTANTS
  MaxWays = 8
  MaxLen = 4
  MaxTaken = 7
INVARIANTS Plru Two
CHECK_DEADLOCK FALSE
