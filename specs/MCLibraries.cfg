CONSTANTS
  Libs <- MCLibs
  Broken <- MCBroken
  PkgOf <- MCPkg
  SimDepth = 0
SPECIFICATION MCSpec
VIEW View
CONSTRAINT Small
INVARIANTS NeverNegative NullNeverInitialised
PROPERTIES OncePerSimulator
CHECK_DEADLOCK FALSE
