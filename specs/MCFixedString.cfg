CONSTANTS
  Slots <- SlotsDef
  Cap <- CapDef
  Alphabet = {0, 97, 200}
  MaxArg = 2
  SimDepth = 0
SPECIFICATION MCSpec
VIEW View
INVARIANTS WithinCapacity NoEmbeddedNul TotalOrder FindSound
PROPERTIES OneTarget
CHECK_DEADLOCK FALSE
