CONSTANTS
  Bytes = {97, 90, 48, 57, 95, 91, 93, 46}
  MaxLen = 5
SPECIFICATION MCSpec
INVARIANTS Agree Prefixes Exclusive
CHECK_DEADLOCK FALSE
