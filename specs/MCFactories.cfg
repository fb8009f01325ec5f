CONSTANTS
  Names = {"A", "B"}
  Ids = {"u1", "u2", "u3"}
  SimDepth = 0
SPECIFICATION MCSpec
VIEW View
INVARIANTS Unique Owned
PROPERTIES Refused Kept
CHECK_DEADLOCK FALSE
