CONSTANTS
  SimDepth = 0
  T = {"i8", "str"}
  N = 3
SPECIFICATION MCSpec
INVARIANTS BackAgain Nothing
VIEW View
CHECK_DEADLOCK FALSE
