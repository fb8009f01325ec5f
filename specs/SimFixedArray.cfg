CONSTANTS
  Slots <- MCSlots
  Size <- MCSize
  Values = {0, 1, 2}
  Default = 0
  SimDepth = 30
SPECIFICATION MCSpec

INVARIANTS Emit FixedSize

CHECK_DEADLOCK FALSE
