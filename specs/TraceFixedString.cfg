CONSTANTS
  Slots <- TraceSlots
  Cap <- TraceCap
SPECIFICATION TraceSpec
INVARIANTS Conforms WithinCapacity NoEmbeddedNul
CHECK_DEADLOCK FALSE
