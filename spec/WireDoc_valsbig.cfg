SPECIFICATION Spec
CONSTANTS
  Protos <- AllProtos
  Depth = 3
  MaxFields = 2
  Ids <- IdsSmall
  FieldTs <- NoTs
  DeepTs <- ScalarTs
  Sizes = {0, 1, 2}
  Rich = TRUE
  Messages = FALSE
  Roots <- AllTs
  Dump = FALSE
INVARIANTS RoundTrip PrefixFree SkipExact Balanced
CHECK_DEADLOCK FALSE
