SPECIFICATION Spec
CONSTANTS
  Protos <- AllProtos
  Depth = 2
  MaxFields = 1
  Ids <- IdsTwo
  FieldTs <- FewTs
  DeepTs <- NoTs
  Sizes = {0}
  Rich = FALSE
  Messages = TRUE
  Roots <- StructOnly
  Dump = TRUE
INVARIANTS Printed
CHECK_DEADLOCK FALSE
