SPECIFICATION Spec
CONSTANTS MaxLen = 3
  Data = {3, 16}
INVARIANT Inv
CHECK_DEADLOCK FALSE
