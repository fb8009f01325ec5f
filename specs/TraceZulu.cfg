CONSTANTS
  Slots = {"z1", "z2", "z3"}
SPECIFICATION TraceSpec
INVARIANTS Conforms Quiet NotPast CyclicPositive Fresher
CHECK_DEADLOCK FALSE
