CONSTANTS Checks = {"header", "decoded", "leftover", "again"}
 Gen = FALSE
SPECIFICATION Spec
INVARIANT Verdict
CHECK_DEADLOCK FALSE
ALIAS Short
