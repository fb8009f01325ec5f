CONSTANTS
  Sources = {"a1", "a2", "b", "p"}
  Targets = {"t1", "t2", "a1"}
  SimDepth = 40
  MaxLinks = 0
  MaxActs = 0
SPECIFICATION SimSpec
INVARIANTS NotNegative Listed Emitted
CHECK_DEADLOCK FALSE
