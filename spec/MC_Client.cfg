SPECIFICATION Spec
CONSTANTS
  MaxReplies = 4
  Wide = FALSE
  Long = FALSE
INVARIANTS Lockstep Definite NoFalseHope InOrder Collected Whole Tied OfKind Emit
CHECK_DEADLOCK FALSE
