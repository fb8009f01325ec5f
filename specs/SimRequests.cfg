CONSTANTS
  SimDepth = 50
SPECIFICATION SimSpec
INVARIANTS Accepted Distinct Emitted
CHECK_DEADLOCK FALSE
