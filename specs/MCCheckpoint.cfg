CONSTANTS
  Eps = {"e1"}
  Subs = {"s1"}
  Slots = {"f", "t"}
  Transient = {"t"}
  SimDepth = 0
SPECIFICATION MCSpec
INVARIANTS Sound StoreQuiet Resuming
CONSTRAINT Small
VIEW View
CHECK_DEADLOCK FALSE
