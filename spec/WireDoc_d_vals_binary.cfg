SPECIFICATION Spec
CONSTANTS
  Protos <- BinaryOnly
  Depth = 2
  MaxFields = 1
  Ids <- IdsTwo
  FieldTs <- AllTs
  DeepTs <- ScalarTs
  Sizes = {0, 1}
  Rich = TRUE
  Messages = FALSE
  Roots <- AllTs
  Dump = TRUE
INVARIANTS Printed
CHECK_DEADLOCK FALSE
