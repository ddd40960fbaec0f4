SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
CONSTANTS Max = 4 MaxC = 4 MaxN = 18 MaxH = 5
