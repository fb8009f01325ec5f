CONSTANTS
  Slots = {"e1", "e2", "e3", "pre", "post", "enter"}
SPECIFICATION TraceSpec
INVARIANTS Conforms Waiting NoneLost NotPast Idle CyclicPositive Fresher
CHECK_DEADLOCK FALSE
