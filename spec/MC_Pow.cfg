SPECIFICATION Spec
CONSTANTS
  Workers = 2
  Nonces = 2
INVARIANTS Valid Reason Impossible Room Emit
PROPERTIES Stops Quiet
CHECK_DEADLOCK FALSE
