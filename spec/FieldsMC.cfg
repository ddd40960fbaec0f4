CONSTANTS Names = {"a", "b"}
 Grids <- MCGrids
 KVecs <- MCK
 MaxLevel = 6
SPECIFICATION Spec
CONSTRAINT Bound
INVARIANTS TypeOK HalfOK CurOK InterpOK
PROPERTIES OneChange WriteDiscards
CHECK_DEADLOCK FALSE
