CONSTANTS SimDepth = 30
SPECIFICATION SimSpec
INVARIANTS Distinct Predefined Emitted
CHECK_DEADLOCK FALSE
