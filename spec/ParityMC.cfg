SPECIFICATION Spec
CONSTANTS MaxN = 5
 MaxIdx = 3
INVARIANTS Sound Remembers Refused
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
