SPECIFICATION Spec
CONSTANT N = 5
CHECK_DEADLOCK FALSE
