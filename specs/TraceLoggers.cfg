SPECIFICATION TraceSpec
INVARIANTS Conforms Distinct Predefined
CHECK_DEADLOCK FALSE
