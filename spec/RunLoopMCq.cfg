SPECIFICATION Spec
INVARIANTS AsDeclared SolvedOnceInOrder EveryBandOnce ChunksUnion RandomLast
CHECK_DEADLOCK FALSE
CONSTANT MaxK = 2
