CONSTANTS Checks = {"header", "decoded", "leftover", "again", "skip"}
 Gen = TRUE
SPECIFICATION Spec
INVARIANT Dump
CHECK_DEADLOCK FALSE
