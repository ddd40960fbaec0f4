SPECIFICATION GSpec
CONSTANTS Nb = 4
 Repaired = TRUE
 Steps = 10
INVARIANTS Emit
CHECK_DEADLOCK FALSE
