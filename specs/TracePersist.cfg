SPECIFICATION TraceSpec
INVARIANTS Conforms BackAgain
CHECK_DEADLOCK FALSE
