CONSTANTS Checks = {"header", "leftover", "again", "skip"}
 Gen = FALSE
SPECIFICATION Spec
INVARIANT Verdict
CHECK_DEADLOCK FALSE
ALIAS Short
