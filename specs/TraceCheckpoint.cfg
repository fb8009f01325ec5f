CONSTANTS
  Eps = {"e1", "e2", "e3"}
  Subs = {"s1", "s2", "s3"}
  Slots = {"i", "d", "t", "f", "x", "a0", "a1", "A0", "A1", "sp", "sq", "o", "p", "q", "l0", "l1", "ra", "rb", "ba", "bb", "n0", "h", "g"}
  Transient = {"t", "sq", "q", "n0"}
SPECIFICATION TraceSpec
INVARIANTS Conforms Sound StoreQuiet
CHECK_DEADLOCK FALSE
