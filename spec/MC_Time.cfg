SPECIFICATION Spec
CONSTANTS MaxGenesis = 3  MaxDur = 3  MaxExp = 3  MaxSteps = 20
INVARIANTS Laws Emit
CHECK_DEADLOCK FALSE
