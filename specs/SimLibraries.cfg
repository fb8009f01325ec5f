CONSTANTS
  Libs <- MCLibs
  Broken <- MCBroken
  PkgOf <- MCPkg
  SimDepth = 40
SPECIFICATION MCSpec
CONSTRAINT Small
INVARIANTS Emit
CHECK_DEADLOCK FALSE
