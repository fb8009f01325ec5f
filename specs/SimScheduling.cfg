CONSTANTS
  Slots = {"e1", "e2", "e3", "pre", "post", "enter"}
  SimDepth = 25
  Rich = TRUE
  WithScripts = TRUE
  Last = 99
SPECIFICATION SimSpec
INVARIANTS Emitted Waiting NoneLost NotPast Idle CyclicPositive Fresher
CHECK_DEADLOCK FALSE
