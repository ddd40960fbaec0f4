CONSTANTS Names <- GNames Grids <- GenDims KVecs <- GenK MaxLevel = 99
SPECIFICATION GenSpec
INVARIANTS Emit TypeOK CurOK
CHECK_DEADLOCK FALSE
