CONSTANTS
  GoodLibs = {"good1", "good2"}
  FalseLibs = {"refuses"}
  IncompleteLibs = {"noinit", "nofin"}
SPECIFICATION TraceSpec
INVARIANTS Conforms Stable Quiet PendOnlyRunning
CHECK_DEADLOCK FALSE
