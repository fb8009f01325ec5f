CONSTANTS
  Libs <- TLibs
  Broken <- TBroken
  PkgOf <- TPkg
SPECIFICATION TraceSpec
INVARIANTS Conforms NeverNegative NullNeverInitialised
CHECK_DEADLOCK FALSE
