CONSTANTS
  Slots <- SlotsDef
  Cap <- CapDef
  Alphabet = {0, 97, 200}
  MaxArg = 2
  SimDepth = 25
SPECIFICATION MCSpec

INVARIANTS Emit WithinCapacity

CHECK_DEADLOCK FALSE
