SPECIFICATION Spec
CONSTANTS Genesis = 7  SlotsPerEpoch = 8  Versions = {3, 4, 5}  Epochs = {0, 1, 2}  CommitEpochs = {0, 1, 2, 3}  Depth = 3
INVARIANTS Latest Forces Consistent Committed Emit
PROPERTY NeverBack
CHECK_DEADLOCK FALSE
