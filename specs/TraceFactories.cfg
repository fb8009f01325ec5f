CONSTANTS
  Names = {"A", "B", "C"}
  Ids = {"u1", "u2", "u3", "u4"}
SPECIFICATION TraceSpec
INVARIANTS Conforms Unique
CHECK_DEADLOCK FALSE
