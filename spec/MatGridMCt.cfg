SPECIFICATION Spec
CONSTANTS MaxLen = 3
  Data = {0, 4, 9, 16}
INVARIANT Inv
CHECK_DEADLOCK FALSE
