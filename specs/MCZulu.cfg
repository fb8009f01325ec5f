CONSTANTS
  Slots = {"z1"}
  SimDepth = 0
  Rich = FALSE
SPECIFICATION MCSpec
VIEW View
CONSTRAINT Small
INVARIANTS Quiet NotPast CyclicPositive Fresher
PROPERTIES Due
CHECK_DEADLOCK FALSE
