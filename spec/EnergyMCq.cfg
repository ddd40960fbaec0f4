SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
CONSTANTS Max = 3 MaxC = 2 MaxN = 9 MaxH = 3
