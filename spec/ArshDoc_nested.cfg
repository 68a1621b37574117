SPECIFICATION Spec
CONSTANT Univ = "nested"
INVARIANTS Agree Done Sane
CHECK_DEADLOCK FALSE
