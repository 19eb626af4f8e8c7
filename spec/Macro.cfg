SPECIFICATION Spec
INVARIANTS Outcome Emit
PROPERTY Ends
CHECK_DEADLOCK FALSE
