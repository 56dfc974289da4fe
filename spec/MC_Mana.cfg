SPECIFICATION Spec
CONSTANTS MaxValue = 17  MaxSlot = 18
INVARIANTS NeverMore Identity WaitingIsWorse MonotoneDecay SplitDecay MonotoneGen NoGenInSlot SplitGen
CHECK_DEADLOCK FALSE
