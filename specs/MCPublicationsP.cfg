CONSTANTS
  SimDepth = 0
  Mode = "pubs"
SPECIFICATION MCSpec
VIEW View
CONSTRAINT Bounded
INVARIANTS Unique Paths Nested Sound Finite
PROPERTIES Refused
CHECK_DEADLOCK FALSE
