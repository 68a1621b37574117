SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Names = {"Bool", "StructEnd", "String"}
  MaxBreak = 4
  MaxOps = 5
  Gen = TRUE
INVARIANT Dump
