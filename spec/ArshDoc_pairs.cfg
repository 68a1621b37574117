SPECIFICATION Spec
CONSTANT Univ = "pairs"
INVARIANTS Agree Done Sane
CHECK_DEADLOCK FALSE
