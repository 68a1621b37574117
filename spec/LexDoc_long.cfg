SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxLen = 6
  Alphabet = {97, 101, 120, 48, 46, 45, 34, 92, 47, 42, 10}
INVARIANT Maximal
