SPECIFICATION Spec
CONSTANT Univ = "flat"

CHECK_DEADLOCK FALSE
