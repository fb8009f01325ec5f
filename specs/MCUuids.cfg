CONSTANTS
  Groups <- G
  Bytes = {48, 57, 97, 70, 45, 103}
SPECIFICATION MCSpec
INVARIANTS Inverse Prefix Order Textual
CHECK_DEADLOCK FALSE
