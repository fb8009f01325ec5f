CONSTANTS Objs = {"a", "b", "c", "d"}
SPECIFICATION TraceSpec
INVARIANTS Conforms TypeOK NoNul
CHECK_DEADLOCK FALSE
