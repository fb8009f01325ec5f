CONSTANTS
  Slots <- MCSlots
  Size <- MCSize
  Values = {0, 1, 2}
  Default = 0
  SimDepth = 0
SPECIFICATION MCSpec
VIEW View
INVARIANTS FixedSize TotalOrder
PROPERTIES Local
CHECK_DEADLOCK FALSE
