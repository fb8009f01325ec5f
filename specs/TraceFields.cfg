SPECIFICATION TraceSpec
INVARIANTS Conforms Flows Whole
CHECK_DEADLOCK FALSE
