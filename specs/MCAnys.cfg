CONSTANTS
  SimDepth = 0
SPECIFICATION MCSpec
INVARIANTS Typed Back Lossless Both Equality Integral
CHECK_DEADLOCK FALSE
