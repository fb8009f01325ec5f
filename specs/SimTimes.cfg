CONSTANTS
  Stride = 500
  SimDepth = 40
SPECIFICATION SimSpec
INVARIANTS Emitted
CHECK_DEADLOCK FALSE
