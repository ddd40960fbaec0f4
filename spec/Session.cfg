SPECIFICATION Spec
CONSTANTS
 Grids = {1, 2}
 Nbs = {0, 1, 2, 3, 5}
 Sizes <- SomeSizes
 Works = {2, 3}
 Repaired = TRUE
 MaxLevel = 60
INVARIANTS Live Roomy Shapes Complete Restored
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
