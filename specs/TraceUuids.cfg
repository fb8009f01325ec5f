CONSTANTS
  Groups <- G
SPECIFICATION TraceSpec
INVARIANTS Conforms 
CHECK_DEADLOCK FALSE
