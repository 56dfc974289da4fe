SPECIFICATION Spec
CONSTANTS
  MaxDev = 2
INVARIANTS BackLaw RestLaw ShortLaw DiffLaw Emit
CHECK_DEADLOCK FALSE
