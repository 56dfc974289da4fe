SPECIFICATION Spec
CONSTANTS
  Owners = 2
  MaxRegs = 2
  MaxOps = 4
  IKeys = 3
INVARIANTS FormsAgree Known LastWins OthersRefused SetLaw Emit
CHECK_DEADLOCK FALSE
