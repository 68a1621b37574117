SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Names = {"Bool", "StructEnd", "String"}
  MaxBreak = 5
  MaxOps = 7
  Gen = FALSE
INVARIANTS Replayed Broken AllBefore
