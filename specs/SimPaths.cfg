CONSTANTS
  SimDepth = 70
  MaxObjs = 0
  MaxPath = 0
  Alphabet = {}
SPECIFICATION SimSpec
INVARIANTS Emitted
CHECK_DEADLOCK FALSE
