SPECIFICATION Spec
CONSTANTS
  Protos <- CompactOnly
  Depth = 2
  MaxFields = 2
  Ids <- IdsWide
  FieldTs <- FewTs
  DeepTs <- NoTs
  Sizes = {0, 1}
  Rich = FALSE
  Messages = FALSE
  Roots <- StructOnly
  Dump = TRUE
INVARIANTS Printed
CHECK_DEADLOCK FALSE
