CONSTANTS
  Threads = {"t1", "t2", "t3", "t4"}
  Values = {0, 1, 2}
  SimDepth = 0
SPECIFICATION MCSpec
VIEW View
INVARIANTS Exclusive NoLostWakeup
PROPERTIES OnlyWriterWrites
CHECK_DEADLOCK FALSE
