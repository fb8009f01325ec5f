CONSTANTS
  Slots = {"m1", "m2", "m3", "m4", "m5", "m6"}
SPECIFICATION TraceSpec
INVARIANTS Conforms OneOwner UniqueNames Bounded Typed Calm
CHECK_DEADLOCK FALSE
