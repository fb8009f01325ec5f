CONSTANTS
  SimDepth = 0
  Mode = "types"
SPECIFICATION MCSpec
VIEW View
CONSTRAINT Bounded
INVARIANTS Unique Paths Nested Sound Finite
PROPERTIES Refused
CHECK_DEADLOCK FALSE
