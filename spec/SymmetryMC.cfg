SPECIFICATION Spec
CONSTANT Big = TRUE
INVARIANTS IsGroup IsLittle Acts PhaseLaw OrbitSize
CHECK_DEADLOCK FALSE
