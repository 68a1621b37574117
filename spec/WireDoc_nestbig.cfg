SPECIFICATION Spec
CONSTANTS
  Protos <- AllProtos
  Depth = 3
  MaxFields = 2
  Ids <- IdsTwo
  FieldTs <- FewTs
  DeepTs <- DeepFew
  Sizes = {0, 1}
  Rich = FALSE
  Messages = FALSE
  Roots <- StructOnly
  Dump = FALSE
INVARIANTS RoundTrip PrefixFree SkipExact Balanced
CHECK_DEADLOCK FALSE
