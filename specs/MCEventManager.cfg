CONSTANTS
  Eps = {"e1", "e2"}
  SimDepth = 0
  Rich = FALSE
SPECIFICATION MCSpec
INVARIANTS NamesOnce SubsOnce Lengths 
VIEW View
CONSTRAINT Small
PROPERTIES Stable AbortIsFinal Ordered
CHECK_DEADLOCK FALSE
