SPECIFICATION Spec
CONSTANTS Bmin = 1
 Bmax = 3
 Ks = {1, 2, 3}
INVARIANTS Sound Roots Once Best
CHECK_DEADLOCK FALSE
