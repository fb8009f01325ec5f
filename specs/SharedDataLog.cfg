SPECIFICATION LSpec
INVARIANTS Exclusive
CHECK_DEADLOCK FALSE
