SPECIFICATION FairSpec
CONSTANTS
  Len2 = 1
  Len3 = 1
  MaxNow = 4
  PrintProgs = TRUE
CONSTRAINT Bound
INVARIANTS ClockExact QueueExact EndClean
PROPERTIES StepQuiet OneFinalStep NothingAfterKill Terminates
