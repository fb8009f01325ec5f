CONSTANTS
  Names = {"A", "B", "C"}
  Ids = {"u1", "u2", "u3", "u4"}
  SimDepth = 40
SPECIFICATION SimSpec
INVARIANTS Unique Emitted
CHECK_DEADLOCK FALSE
