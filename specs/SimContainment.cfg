CONSTANTS
  Slots = {"m1", "m2", "m3", "m4", "m5", "m6"}
  SimDepth = 45
  MaxRefs = 0
  MaxActs = 0
  Ns = {"a", "b", "c", "ep", "src", "snk", "fail", "fld", "op", "prop"}
  Kinds = {"model", "special", "service"}
  Ps = {"r", "o", "none"}
SPECIFICATION SimSpec
INVARIANTS OneOwner UniqueNames Bounded Typed Calm Emitted
CHECK_DEADLOCK FALSE
