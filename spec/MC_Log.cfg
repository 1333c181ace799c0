SPECIFICATION MCSpec
CONSTANTS
  MaxLen = 3
  Levels = {10, 30, 40}
INVARIANTS Counted DisplayedAreCounted
PROPERTY Agree
CHECK_DEADLOCK FALSE
