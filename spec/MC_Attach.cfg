SPECIFICATION MCSpec
CONSTANTS
  MaxDecls = 2
  MaxLen = 2
INVARIANTS Agree Connected Silent
CHECK_DEADLOCK FALSE
