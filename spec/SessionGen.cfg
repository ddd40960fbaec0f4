SPECIFICATION GSpec
CONSTANTS
 Grids = {1, 2}
 Nbs = {1, 2, 3, 4, 5}
 Sizes <- SomeSizes
 Works = {2, 3}
 Repaired = TRUE
 MaxLevel = 60
 Steps = 16
INVARIANTS Emit
CHECK_DEADLOCK FALSE
