CONSTANTS
  SimDepth = 60
  Mode = "sim"
SPECIFICATION SimSpec
INVARIANTS Unique Finite Emitted
CHECK_DEADLOCK FALSE
