CONSTANTS
  SimDepth = 0
SPECIFICATION MCSpec
VIEW View
CONSTRAINT Bounded
INVARIANTS Accepted Distinct
PROPERTIES Refused
CHECK_DEADLOCK FALSE
