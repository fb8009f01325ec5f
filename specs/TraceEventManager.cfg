CONSTANTS
  Eps = {"e1", "e2", "e3", "e4"}
SPECIFICATION TraceSpec
INVARIANTS Conforms NamesOnce SubsOnce Lengths
CHECK_DEADLOCK FALSE
