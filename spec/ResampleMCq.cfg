SPECIFICATION Spec
CONSTANT Full = FALSE
INVARIANTS RectLaw DimLaw IdLaw TileLaw FineLaw MidLaw NormLaw TransposeLaw
CHECK_DEADLOCK FALSE
