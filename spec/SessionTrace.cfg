SPECIFICATION TSpec
CONSTANTS
 Grids = {1}
 Nbs = {1}
 Sizes = {1}
 Works = {2}
 Repaired = TRUE
 MaxLevel = 60
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
