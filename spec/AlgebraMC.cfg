SPECIFICATION Spec
CONSTANT Rich = FALSE
INVARIANTS MulAdjoint AssocCol TraceCyclic GramHermitian GramLinear GramRows SliceIsSub PutBlock DetMul PositiveGram TraceInner SubWhole OneTouched SymTwice
CHECK_DEADLOCK FALSE
