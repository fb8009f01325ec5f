CONSTANTS
  SimDepth = 40
SPECIFICATION SimSpec
INVARIANTS Flows Whole Emitted
CHECK_DEADLOCK FALSE
