CONSTANTS Threads = {"t1", "t2", "t3"}
SPECIFICATION TraceSpec
INVARIANTS Conforms Exclusive NoLostWakeup
CHECK_DEADLOCK FALSE
