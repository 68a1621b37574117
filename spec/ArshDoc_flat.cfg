SPECIFICATION Spec
CONSTANT Univ = "flat"
INVARIANTS Agree Done Sane
CHECK_DEADLOCK FALSE
