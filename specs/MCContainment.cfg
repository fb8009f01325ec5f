CONSTANTS
  Slots = {"m1", "m2"}
  SimDepth = 0
  MaxRefs = 2
  MaxActs = 1
  Ns = {"a", "fld"}
  Kinds = {"model", "special"}
  Ps = {"r"}
SPECIFICATION MCSpec
INVARIANTS OneOwner UniqueNames Bounded Typed Calm
VIEW View
CONSTRAINT Small
CHECK_DEADLOCK FALSE
