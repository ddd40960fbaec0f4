SPECIFICATION TSpec
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
