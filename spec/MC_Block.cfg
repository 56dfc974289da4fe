SPECIFICATION Spec
CONSTANT Span = 8
INVARIANTS Lawful Emit
CHECK_DEADLOCK FALSE
