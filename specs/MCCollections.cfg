CONSTANTS
  SimDepth = 0
  MaxLen = 2
  Es = {"e1", "e2", "e3", "x1"}
SPECIFICATION MCSpec
INVARIANTS UniqueNames Sane FoundByName
VIEW View
CONSTRAINT Small
CHECK_DEADLOCK FALSE
