SPECIFICATION Spec
CONSTANT MaxPins = 3
INVARIANT Correct
PROPERTY Ends_
CHECK_DEADLOCK FALSE
