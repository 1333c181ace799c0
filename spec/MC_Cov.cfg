SPECIFICATION MCSpec
CONSTANTS
  MaxHits = 1
  MaxLen = 6
  Disable = 1
CONSTRAINT Small
VIEW View
INVARIANTS Counts StopsWhenCovered
CHECK_DEADLOCK FALSE
