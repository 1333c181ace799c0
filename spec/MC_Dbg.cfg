SPECIFICATION MCSpec
CONSTANTS
  MaxCmds = 3
  Values = {0, 2}
INVARIANTS Contract
PROPERTIES Held
CHECK_DEADLOCK FALSE
