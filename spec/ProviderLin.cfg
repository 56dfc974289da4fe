SPECIFICATION Spec
CONSTANTS Genesis = 7  SlotsPerEpoch = 8
INVARIANT Explained
CHECK_DEADLOCK FALSE
