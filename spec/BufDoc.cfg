SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Size = 2
  MaxLen = 4
  MaxAsk = 5
INVARIANTS Right Where
PROPERTY Returns
