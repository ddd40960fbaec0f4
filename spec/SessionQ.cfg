SPECIFICATION Spec
CONSTANTS
 Grids = {1}
 Nbs = {1, 2, 3}
 Sizes <- SomeSizes
 Works = {2, 3}
 Repaired = TRUE
 MaxLevel = 60
INVARIANTS Live Roomy Shapes Complete Restored
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
