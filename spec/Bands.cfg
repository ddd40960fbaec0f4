CONSTANTS MaxK = 3 MaxB = 3 MaxF = 3
SPECIFICATION Spec
INVARIANTS RangesRight OrderFree GapsEmpty
CHECK_DEADLOCK FALSE
