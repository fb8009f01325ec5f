CONSTANTS
  SimDepth = 0
  MaxObjs = 11
  MaxPath = 3
  Alphabet = {"/", ".", "a"}
SPECIFICATION MCSpec
INVARIANTS RoundTrip Relative FieldNames Back Total
VIEW View
CONSTRAINT Small
CHECK_DEADLOCK FALSE
