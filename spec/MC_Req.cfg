SPECIFICATION MCSpec
CONSTANTS
  MaxLen = 3
  CondLen = 2
INVARIANTS InOrder Agree Earliest
PROPERTY Finishes
CHECK_DEADLOCK FALSE
