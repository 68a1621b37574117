SPECIFICATION Spec
CONSTANT Univ = "nested"

CHECK_DEADLOCK FALSE
