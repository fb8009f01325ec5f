CONSTANTS
  SimDepth = 40
  MaxLen = 0
  Es = {}
SPECIFICATION SimSpec
INVARIANTS Emitted
CHECK_DEADLOCK FALSE
