CONSTANTS
  Threads = {"t1", "t2", "t3"}
  Values = {0, 1, 2}
  SimDepth = 60
SPECIFICATION MCSpec

INVARIANTS Emit Exclusive

CHECK_DEADLOCK FALSE
