CONSTANTS
  SimDepth = 0
  MaxScripts = 1
  First = 1
SPECIFICATION MCSpec
VIEW View
CONSTRAINT Bounded
INVARIANTS Typed Pending Once Runs1
CHECK_DEADLOCK FALSE
