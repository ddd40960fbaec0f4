SPECIFICATION Spec
CONSTANT Big = FALSE
INVARIANTS IsGroup IsLittle Acts PhaseLaw OrbitSize
CHECK_DEADLOCK FALSE
