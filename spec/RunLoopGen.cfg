SPECIFICATION GSpec
CONSTANT Steps = 7
INVARIANT Emit
CHECK_DEADLOCK FALSE
