CONSTANTS SimDepth = 0
SPECIFICATION MCSpec
VIEW View
CONSTRAINT Short
INVARIANTS Distinct Predefined
PROPERTIES Stable Grows Queried
CHECK_DEADLOCK FALSE
