CONSTANTS Names <- TNames Grids <- TGrids KVecs <- TGrids MaxLevel = 99
SPECIFICATION TSpec
INVARIANTS TypeOK HalfOK CurOK
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
