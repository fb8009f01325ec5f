CONSTANTS
  GoodLibs = {"good1", "good2"}
  FalseLibs = {"refuses"}
  IncompleteLibs = {"noinit", "nofin"}
  SimDepth = 30
  Rich = TRUE
SPECIFICATION SimSpec
INVARIANTS Emitted Stable
CHECK_DEADLOCK FALSE
