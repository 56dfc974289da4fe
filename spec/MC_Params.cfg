SPECIFICATION Spec
CONSTANTS
  MaxOpts = 2
  Durs = {10, 255}
  Exps = {3, 4}
INVARIANTS OrderLaw CodecLaw AgeLaw NearLaw LiveLaw CostLaw PoolLaw Emit
CHECK_DEADLOCK FALSE
