CONSTANTS MaxK = 5 MaxB = 5 MaxF = 6
SPECIFICATION GenSpec
INVARIANT Emit
CHECK_DEADLOCK FALSE
