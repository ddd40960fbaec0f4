SPECIFICATION Spec
CONSTANT Depth = 4
INVARIANTS NeedsData Leaves Fresh
PROPERTIES RefusedIsNoop Discards StatesChange ReadsKeep
CHECK_DEADLOCK FALSE
