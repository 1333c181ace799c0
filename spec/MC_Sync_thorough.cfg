SPECIFICATION MCSpec
CONSTANTS
  NC = 2
  NH = 2
  Prios = {0, 1}
  MaxDur = 1
  MonVals = {"7", "None"}
  MaxLen = 2
INVARIANTS Contract Complete Noticed
PROPERTY Ends
CHECK_DEADLOCK TRUE
