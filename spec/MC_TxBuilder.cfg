SPECIFICATION Spec
CONSTANTS
  MaxIns = 2
  MaxOps = 1
  Part = "all"
  Whole = FALSE
INVARIANTS Findable SignsOnce Accepted Conserved NothingLeft LedgerMana Afforded Emit
PROPERTY OnlyAdds
CHECK_DEADLOCK FALSE
