SPECIFICATION MCSpec
INVARIANTS Agree OutputsOnlyByName OthersKept
CHECK_DEADLOCK FALSE
