CONSTANTS
  Stride = 11
  SimDepth = 0
SPECIFICATION MCSpec
INVARIANTS Group Units1 Calendar Known
CHECK_DEADLOCK FALSE
