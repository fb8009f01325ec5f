SPECIFICATION TraceSpec
INVARIANTS Conforms Unique
CHECK_DEADLOCK FALSE
