SPECIFICATION Spec
INVARIANT Found
CONSTANTS Max = 2
 K = 4
CHECK_DEADLOCK FALSE
