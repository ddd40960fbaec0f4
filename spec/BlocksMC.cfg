SPECIFICATION Spec
CONSTANTS Lock = TRUE
 MaxNb = 6
 MaxBs = 7
INVARIANTS Once Order Nearest Parts Prefix
PROPERTY Ends
