CONSTANTS MaxK = 1000 MaxB = 50 MaxF = 0
SPECIFICATION TSpec
INVARIANT TInv
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
