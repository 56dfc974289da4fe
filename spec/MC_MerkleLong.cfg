SPECIFICATION Spec
CONSTANTS Letters = 0  MaxLen = 130  Tamper = FALSE
INVARIANTS Complete Sound Binding Emit
CHECK_DEADLOCK FALSE
