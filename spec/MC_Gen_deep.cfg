SPECIFICATION Spec
CONSTANTS
  Names = {"a", "b"}
  Depth = 3
INVARIANTS Exact Attributes
CHECK_DEADLOCK FALSE
