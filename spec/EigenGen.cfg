SPECIFICATION GSpec
CONSTANT Steps = 24
INVARIANT Emit
CHECK_DEADLOCK FALSE
