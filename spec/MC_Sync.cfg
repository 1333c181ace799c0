SPECIFICATION MCSpec
CONSTANTS
  NC = 2
  NH = 2
  Prios = {0, 1}
  MaxDur = 1
  MonVals = {"7"}
  MaxLen = 1
INVARIANTS Contract Complete Noticed
CHECK_DEADLOCK TRUE
