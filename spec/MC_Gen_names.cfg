SPECIFICATION Spec
CONSTANTS
  Names = {"a", "b", "a_b"}
  Depth = 2
INVARIANTS Exact Attributes
CHECK_DEADLOCK FALSE
