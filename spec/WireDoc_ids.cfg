SPECIFICATION Spec
CONSTANTS
  Protos <- AllProtos
  Depth = 2
  MaxFields = 2
  Ids <- IdsWide
  FieldTs <- FewTs
  DeepTs <- NoTs
  Sizes = {0, 1}
  Rich = FALSE
  Messages = FALSE
  Roots <- StructOnly
  Dump = FALSE
INVARIANTS RoundTrip PrefixFree SkipExact Balanced
CHECK_DEADLOCK FALSE
