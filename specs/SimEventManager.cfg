CONSTANTS
  Eps = {"e1", "e2", "e3", "e4"}
  SimDepth = 40
  Rich = TRUE
SPECIFICATION SimSpec
INVARIANTS NamesOnce SubsOnce Lengths Emitted

CHECK_DEADLOCK FALSE
