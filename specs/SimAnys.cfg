CONSTANTS
  SimDepth = 40
SPECIFICATION SimSpec
INVARIANTS Typed Emitted
CHECK_DEADLOCK FALSE
