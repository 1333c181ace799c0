SPECIFICATION MCSpec
CONSTANTS
  MaxLen = 2
  What = "exec"
INVARIANTS Contract NoEmptyGroup Distinct
CHECK_DEADLOCK FALSE
