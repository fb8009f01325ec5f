CONSTANTS
  Slots <- TSlots
  Size <- TSize
  Default = 0
SPECIFICATION TraceSpec
INVARIANTS Conforms FixedSize
CHECK_DEADLOCK FALSE
