SPECIFICATION Spec
CONSTANTS
  MaxOps = 4
  MaxList = 2
INVARIANTS CopyLaw ListLaw KeysLaw OrderLaw Emit
CHECK_DEADLOCK FALSE
