SPECIFICATION Spec
CONSTANTS
  Protos <- AllProtos
  Depth = 3
  MaxFields = 1
  Ids <- IdsTwo
  FieldTs <- NestTs
  DeepTs <- NestTs
  Sizes = {0, 1}
  Rich = FALSE
  Messages = FALSE
  Roots <- StructOnly
  Dump = TRUE
INVARIANTS Printed
CHECK_DEADLOCK FALSE
