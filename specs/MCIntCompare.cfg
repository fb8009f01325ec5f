CONSTANTS
  Types <- TTypes
  Lo <- TLo
  Hi <- THi
SPECIFICATION MCSpec
CHECK_DEADLOCK FALSE
