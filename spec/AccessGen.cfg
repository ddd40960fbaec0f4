SPECIFICATION GSpec
CONSTANT Steps = 30
INVARIANT Emit
CHECK_DEADLOCK FALSE
