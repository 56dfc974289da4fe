SPECIFICATION Spec
CONSTANTS Places = 59
INVARIANT Detected
POSTCONDITION Distance
CHECK_DEADLOCK FALSE
