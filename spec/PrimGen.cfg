SPECIFICATION Spec
INVARIANT Emit
INVARIANT Correct
CHECK_DEADLOCK FALSE
