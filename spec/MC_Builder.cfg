SPECIFICATION Spec
CONSTANTS
  MaxCalls = 2
  Wide = FALSE
INVARIANTS Kept OneKind ImmKept Again Emit
CHECK_DEADLOCK FALSE
