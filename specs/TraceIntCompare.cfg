CONSTANTS
  Types <- TTypes
  Lo <- TLo
  Hi <- THi
SPECIFICATION TraceSpec
INVARIANTS Conforms 
CHECK_DEADLOCK FALSE
