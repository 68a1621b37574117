SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxStack = 16
  MaxPath = 40
  Gen = FALSE
INVARIANTS CanEnd Deterministic AfterRecovery
