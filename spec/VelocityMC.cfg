SPECIFICATION VSpec
CONSTANTS Nb = 3
 Repaired = TRUE
INVARIANTS Faithful Intact
CHECK_DEADLOCK FALSE
