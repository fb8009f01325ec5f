
SPECIFICATION TraceSpec
INVARIANTS Conforms Typed
CHECK_DEADLOCK FALSE
