CONSTANTS
  GoodLibs = {"good1", "good2"}
  FalseLibs = {"refuses"}
  IncompleteLibs = {"noinit", "nofin"}
  SimDepth = 0
  Rich = FALSE
SPECIFICATION MCSpec
VIEW View
CONSTRAINT Small
INVARIANTS Stable Quiet ConnectedFirst PendOnlyRunning
PROPERTIES AbortIsFinal Forward
CHECK_DEADLOCK FALSE
