SPECIFICATION Spec
CONSTANTS Places = 59  MaxBytes = 48
INVARIANTS RowClosed Affine RoundTrip
CHECK_DEADLOCK FALSE
