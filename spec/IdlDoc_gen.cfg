SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxStack = 14
  MaxPath = 40
  Gen = TRUE
INVARIANTS Dump
