SPECIFICATION Spec
CONSTANT Full = TRUE
INVARIANTS RectLaw DimLaw IdLaw TileLaw FineLaw MidLaw NormLaw TransposeLaw
CHECK_DEADLOCK FALSE
