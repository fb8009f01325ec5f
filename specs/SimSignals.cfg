CONSTANTS
  SimDepth = 50
  MaxScripts = 0
  First = 1
SPECIFICATION SimSpec
INVARIANTS Typed Emitted
CHECK_DEADLOCK FALSE
