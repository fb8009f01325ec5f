CONSTANTS
  Slots = {"e1", "pre", "enter"}
  SimDepth = 0
  Rich = FALSE
  WithScripts = TRUE
  Last = 1
SPECIFICATION MCSpec
VIEW View
CONSTRAINT Small
INVARIANTS Waiting NoneLost NotPast Idle CyclicPositive Fresher
PROPERTIES TimeForward LogOrdered
CHECK_DEADLOCK FALSE
