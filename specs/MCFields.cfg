CONSTANTS
  SimDepth = 0
SPECIFICATION MCSpec
VIEW View
INVARIANTS Flows Whole Follow
PROPERTIES Stays
CHECK_DEADLOCK FALSE
