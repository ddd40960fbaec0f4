------------------------------ MODULE FieldsMC ------------------------------
EXTENDS Fields
MCGrids == {<<2, 1, 1>>, <<1, 3, 1>>}
MCK == {<<1, 0, 0>>}
ASSUME \A d \in (1..4) \X (1..4) \X (1..4) : HalfCovers(d)
=============================================================================
