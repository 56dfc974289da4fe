SPECIFICATION Spec
CONSTANTS
  MaxOps = 6
  Methods = "few"
  Clumsy = FALSE
INVARIANTS Honest Kept Single Offline Ended Ready Distinct Emit
CHECK_DEADLOCK FALSE
