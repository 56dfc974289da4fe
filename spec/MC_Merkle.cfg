SPECIFICATION Spec
CONSTANTS Letters = 2  MaxLen = 5  Tamper = TRUE
INVARIANTS Complete Sound Binding Emit
CHECK_DEADLOCK FALSE
