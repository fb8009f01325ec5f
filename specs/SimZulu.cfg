CONSTANTS
  Slots = {"z1", "z2", "z3"}
  SimDepth = 12
  Rich = TRUE
SPECIFICATION SimSpec
INVARIANTS Emitted Quiet NotPast CyclicPositive Fresher
CHECK_DEADLOCK FALSE
