SPECIFICATION Spec
CONSTANTS Genesis = 7  SlotsPerEpoch = 8
INVARIANT Judged
CHECK_DEADLOCK FALSE
