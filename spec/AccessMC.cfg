SPECIFICATION Spec
CONSTANT Depth = 5
INVARIANTS NeedsData Leaves Fresh
PROPERTIES RefusedIsNoop Discards StatesChange ReadsKeep
CHECK_DEADLOCK FALSE
