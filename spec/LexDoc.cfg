SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxLen = 4
  Alphabet = {97, 101, 120, 110, 48, 49, 46, 43, 45, 34, 39, 92, 47, 42, 35, 10, 61, 64, 0}
INVARIANT Maximal
