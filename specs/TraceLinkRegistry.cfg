CONSTANTS
  Sources = {"a1", "a2", "b", "p"}
  Targets = {"t1", "t2", "a1"}
SPECIFICATION TraceSpec
INVARIANTS Conforms NotNegative Listed
CHECK_DEADLOCK FALSE
