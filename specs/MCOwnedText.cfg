CONSTANTS
  Objs = {"a", "b", "c"}
  Alphabet = {0, 97, 98}
  MaxArg = 2
  SimDepth = 0
SPECIFICATION MCSpec
VIEW View
INVARIANTS TypeOK NoNul
PROPERTIES Independent FailureIsAtomic
CHECK_DEADLOCK FALSE
