SPECIFICATION GSpec
CONSTANTS Steps = 14
INVARIANTS Emit
CHECK_DEADLOCK FALSE
