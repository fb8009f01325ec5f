CONSTANTS
  SimDepth = 0
  Mode = "ops"
SPECIFICATION MCSpec
VIEW View
CONSTRAINT Bounded
INVARIANTS Unique Paths Nested Sound Finite
PROPERTIES Refused
CHECK_DEADLOCK FALSE
