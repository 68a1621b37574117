SPECIFICATION Spec
CONSTANT Univ = "pairs"

CHECK_DEADLOCK FALSE
