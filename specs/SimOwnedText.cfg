CONSTANTS
  Objs = {"a", "b", "c"}
  Alphabet = {0, 97, 98}
  MaxArg = 2
  SimDepth = 30
SPECIFICATION MCSpec

INVARIANTS Emit TypeOK

CHECK_DEADLOCK FALSE
