SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Size = 3
  MaxLen = 6
  MaxAsk = 8
INVARIANTS Right Where
PROPERTY Returns
