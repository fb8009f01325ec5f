CONSTANTS
  Sources = {"a1", "a2", "p"}
  Targets = {"t1", "a1"}
  SimDepth = 0
  MaxLinks = 3
  MaxActs = 1
SPECIFICATION MCSpec
INVARIANTS NotNegative Listed
VIEW View
CONSTRAINT Small
PROPERTIES Others
CHECK_DEADLOCK FALSE
