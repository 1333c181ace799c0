SPECIFICATION MCSpec
CONSTANTS
  MaxOps = 1
  MaxClk = 2
INVARIANTS Contract Begun
PROPERTIES Ends
CHECK_DEADLOCK FALSE
